#include "world_impl.hh"

namespace sim {
struct CfgS : sdd::flat_set_default_configuration
{
  using Identifier = std::string;
  using Values = sdd::values::flat_set<std::string>;
};
std::unique_ptr<IWorld> make_world_s(Runner& r, const WorldConf& w) { return std::unique_ptr<IWorld>(new World<CfgS>(r, w)); }
} // namespace sim
