# Included by /repo's project() call (CMAKE_PROJECT_Omega_h_INCLUDE): adds the
# monitoring harnesses to a build of the library from the current sources.
function(vp_add_harnesses)
  target_precompile_headers(omega_h PRIVATE
    <algorithm> <array> <cmath> <cstdio> <cstdlib> <cstring> <fstream>
    <functional> <iomanip> <iostream> <limits> <list> <map> <memory> <mpi.h>
    <queue> <set> <sstream> <stdexcept> <string> <unordered_map> <utility>
    <vector>)
  target_sources(omega_h PRIVATE ${VP_HARNESS_DIR}/hooks.cpp)
  target_compile_definitions(omega_h PUBLIC OMEGA_H_VP_HOOKS)
  file(GLOB srcs ${VP_HARNESS_DIR}/h_*.cpp)
  foreach(s ${srcs})
    get_filename_component(n ${s} NAME_WE)
    add_executable(${n} EXCLUDE_FROM_ALL ${s})
    target_link_libraries(${n} PRIVATE omega_h)
    target_include_directories(${n} PRIVATE ${VP_HARNESS_DIR})
    target_compile_options(${n} PRIVATE -Wno-everything)
  endforeach()
endfunction()
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL vp_add_harnesses)
