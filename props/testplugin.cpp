// A plugin library whose behaviour the harness decides.
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>

extern "C"
{
  lp::PluginTemplateInfo* lpbt_info(int slot);
  lp::PluginInstance* lpbt_instance(int slot, lp::PluginConfiguration* configuration);

#ifndef NOINFO
  lp::PluginTemplateInfo* CreateInfo() { return lpbt_info(SLOT); }
#endif
#ifndef NOINSTANCE
  lp::PluginInstance* CreateInstance(lp::PluginConfiguration configuration) { return lpbt_instance(SLOT, &configuration); }
#endif
  int lpbt_anything() { return SLOT; }
}
