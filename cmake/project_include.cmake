# CMake includes this right after project(stempy) (CMAKE_PROJECT_stempy_INCLUDE).
# thirdparty/pybind11 is an empty git submodule here: use the system's pybind11 instead.
macro(add_subdirectory dir)
  if("${dir}" MATCHES "thirdparty/pybind11$" AND NOT EXISTS "${dir}/CMakeLists.txt")
    find_package(pybind11 CONFIG REQUIRED)
  else()
    _add_subdirectory("${dir}" ${ARGN})
  endif()
endmacro()
# Compile-only flags (the link must not see -fsanitize=thread for the scheduler build).
if(DEFINED ENV{MC_COMPILE_OPTIONS})
  separate_arguments(_mc_opts UNIX_COMMAND "$ENV{MC_COMPILE_OPTIONS}")
  add_compile_options(${_mc_opts})
endif()
# A build with MPI: stand-ins for MPI, BigMPI and cereal (cpp/mpi), none of which is installed here.
if(DEFINED ENV{MC_MPI})
  set(_mc_mpi "$ENV{MC_MPI}")
  macro(find_package name)
    if("${name}" STREQUAL "MPI")
      set(MPI_FOUND TRUE)
      if(NOT TARGET MPI::MPI_C)
        add_library(MPI::MPI_C INTERFACE IMPORTED GLOBAL)
        set_target_properties(MPI::MPI_C PROPERTIES INTERFACE_INCLUDE_DIRECTORIES "${_mc_mpi}")
      endif()
    elseif("${name}" STREQUAL "BigMPI")
      if(NOT TARGET bigmpi::bigmpi)
        add_library(bigmpi::bigmpi INTERFACE IMPORTED GLOBAL)
      endif()
    else()
      _find_package(${name} ${ARGN})
    endif()
  endmacro()
endif()
