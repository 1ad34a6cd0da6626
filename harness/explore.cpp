// Driver: explores the flavours of one group (macro VH_GROUP).
#include "flavours.hpp"
using namespace vh;

int main(int argc, char ** argv)
{
  installHandlers();
  Options opt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&](char const * p) { return a.substr(std::strlen(p)); };
    if (a == "--nofaults") opt.faults = false;
    else if (a == "--nobfs") opt.noBfs = true;
    else if (a == "--unwind") opt.unwind = true;
    else if (a.rfind("--seq=", 0) == 0) opt.seqDepth = std::atoi(val("--seq=").c_str());
    else if (a.rfind("--max=", 0) == 0) opt.maxStates = std::atol(val("--max=").c_str());
    else if (a.rfind("--only=", 0) == 0) opt.only = val("--only=");
    else if (a.rfind("--replay=", 0) == 0) opt.replay = val("--replay=");
    else if (a.rfind("--cats=", 0) == 0) G.cats = argv[i] + 7;
    else if (a.rfind("--fcats=", 0) == 0) G.fcats = argv[i] + 8;
    else if (a.rfind("--alarm=", 0) == 0) ::alarm(static_cast<unsigned>(std::atoi(val("--alarm=").c_str())));
    else if (a.rfind("--fills=", 0) == 0) {
      opt.fills.clear();
      std::string s = val("--fills=");
      for (char * p = s.data(); *p;) { opt.fills.push_back(static_cast<int>(std::strtol(p, &p, 0))); if (*p == ',') ++p; }
    }
  }
  bool ok = true, any = false;
#define FL(NAME, S, ...) ok = runFlavour<S, __VA_ARGS__>(NAME, opt, any) && ok
#define COMMA ,
  (void)ok;
#include "groups.inc"
  if (!any) { std::printf("no such flavour\n"); return 2; }
  return ok ? 0 : 1;
}
