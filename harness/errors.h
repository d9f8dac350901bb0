// The code or kind of the exception being handled.
#pragma once
#include <cstring>
#include <string>
#include <typeinfo>
#include <boost/exception/all.hpp>
#include "mfast.h"
#include "mfast/exceptions.h"
#include "mfast/coder/common/exceptions.h"
#include "mfast/coder/encoder/fast_ostreambuf.h"

inline std::string error_of_current_exception() {
  try { throw; }
  catch (const boost::exception &e) {
    std::string d = boost::diagnostic_information(e);
    // error code carried as error_info string: "[tag_error_code*] = D5"
    auto p = d.find("tag_error_code*] = ");
    if (p != std::string::npos) {
      p += strlen("tag_error_code*] = ");
      auto q = d.find('\n', p);
      return d.substr(p, q - p);
    }
    const std::type_info &ti = typeid(e);
    std::string n = ti.name();
    if (n.find("duplicate_template_id") != std::string::npos) return "duplicate_template_id";
    if (n.find("buffer_overflow") != std::string::npos) return "buffer_overflow";
    try { const std::exception &se = dynamic_cast<const std::exception &>(e); return std::string("boost:") + se.what(); } catch (...) {}
    return std::string("boost:") + n;
  }
  catch (const std::bad_alloc &) { return "bad_alloc"; }
  catch (const std::exception &e) {
    if (dynamic_cast<const mfast::buffer_overflow_error *>(&e)) return "buffer_overflow";
    return std::string("std:") + e.what();
  }
  catch (...) { return "unknown"; }
}
