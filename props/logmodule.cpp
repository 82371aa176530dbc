// A module with a copy of the logger of its own, as plugins have.
#include <lamppost/log/Log.h>

extern "C"
{
  __attribute__((visibility("default"))) void* lpbt_logger(const std::string* prefix) { return new lp::log::Log(*prefix); }
  __attribute__((visibility("default"))) void lpbt_discard(void* log) { delete static_cast<lp::log::Log*>(log); }
  __attribute__((visibility("default"))) void lpbt_log(void* log, int severity, const std::string* message, int level, int withLevel)
  {
    lp::log::Log& l = *static_cast<lp::log::Log*>(log);
    switch(severity)
    {
      case 0: withLevel ? l.Info(*message, level) : l.Info(*message); break;
      case 1: withLevel ? l.Warning(*message, level) : l.Warning(*message); break;
      default: withLevel ? l.Error(*message, level) : l.Error(*message); break;
    }
  }
}
