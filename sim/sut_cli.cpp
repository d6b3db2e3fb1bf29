// The command line tool of the library under test, with its main function renamed.
#include "sut_api.h"
#include <cstring>
#include <exception>
#include <new>
#ifdef SUT_NO_CLI
extern "C" int sut_cli(int,char const*const*,int*,sut_err*){ return 0; }
#else
#define main nudb_cli_main
#include "tools/nudb.cpp"
#undef main
// 1 when the tool could be run; the exit status is stored through rv
extern "C" __attribute__((visibility("default"))) int sut_cli(int ac,char const*const*av,int*rv,sut_err*e){
  try{ *rv=nudb_cli_main(ac,av); }
  catch(std::bad_alloc&){ e->cls=E_BADALLOC; } catch(std::exception&x){ e->cls=E_EXC; std::strncpy(e->msg,x.what(),95); } catch(...){ e->cls=E_UNKNOWN_EXC; }
  return 1; }
#endif
