#ifndef DEMO_ABSL_LOG_H_
#define DEMO_ABSL_LOG_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace demo_log {
struct Msg { bool fatal; std::ostringstream o; explicit Msg(bool f):fatal(f){} ~Msg(){ if(fatal){ std::cerr<<"FATAL "<<o.str()<<"\n"; std::abort(); } }
 template<class T> Msg& operator<<(const T& t){ o<<t; return *this; } };
}
#define DEMO_INFO false
#define DEMO_WARNING false
#define DEMO_ERROR false
#define DEMO_FATAL true
#define LOG(s) ::demo_log::Msg(DEMO_##s)
#endif
