# Loaded through -DCMAKE_PROJECT_mFAST_INCLUDE. The tinyxml2 submodule is empty here, and
# src/mfast/xml_parser/CMakeLists.txt has no option for a system tinyxml2: it compiles
# tinyxml2/tinyxml2.cpp into tinyxml2_static and tinyxml2_shared. Those two targets get an
# empty source file and link apt's libtinyxml2 instead; all other targets are untouched.
find_package(tinyxml2 REQUIRED)
file(CONFIGURE OUTPUT "${CMAKE_BINARY_DIR}/tinyxml2_stub.cpp" CONTENT "// empty\n" @ONLY)

function(target_sources tgt)
  if(tgt MATCHES "^tinyxml2_(static|shared)$")
    get_target_property(have ${tgt} SOURCES)
    if(NOT have)
      _target_sources(${tgt} PRIVATE "${CMAKE_BINARY_DIR}/tinyxml2_stub.cpp")
      _target_sources(${tgt} PUBLIC FILE_SET HEADERS BASE_DIRS /usr/include FILES /usr/include/tinyxml2.h)
      target_link_libraries(${tgt} PUBLIC tinyxml2::tinyxml2)
    endif()
  else()
    _target_sources(${ARGV})
  endif()
endfunction()
