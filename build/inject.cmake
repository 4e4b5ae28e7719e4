# Included by the project() call of /repo/CMakeLists.txt (CMAKE_PROJECT_ericw-tools_INCLUDE).
# Builds *all* of ericw-tools from /repo's own source lists, offline: system fmt/doctest/json, a shim for
# the missing pareto submodule, and a schedule-controllable shim for the TBB headers; then adds the
# monitors' harnesses.  VP_SAN = none | asan | tsan.
get_filename_component(VP_ROOT "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE)
include_directories(BEFORE SYSTEM "${VP_ROOT}/shim")
set(DISABLE_TESTS ON CACHE BOOL "" FORCE)
set(DISABLE_DOCS ON CACHE BOOL "" FORCE)
set(ENABLE_LIGHTPREVIEW OFF CACHE BOOL "" FORCE)
set(SKIP_EMBREE_INSTALL ON CACHE BOOL "" FORCE)
macro(add_subdirectory vp_dir)
    if ("${CMAKE_CURRENT_SOURCE_DIR}/${vp_dir}" STREQUAL "${CMAKE_SOURCE_DIR}/3rdparty")
        set(CMAKE_INTERPROCEDURAL_OPTIMIZATION OFF)
        find_package(fmt REQUIRED)
        find_package(nlohmann_json REQUIRED)
        add_library(pareto INTERFACE)
    else ()
        _add_subdirectory(${ARGV})
        if ("${vp_dir}" STREQUAL "maputil")
            _add_subdirectory("${VP_ROOT}/harness" "${CMAKE_BINARY_DIR}/vp_harness")
        endif ()
    endif ()
endmacro()
