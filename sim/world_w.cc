#include "world_impl.hh"

namespace sim {
struct CfgW : sdd::default_configuration
{
  using Identifier = unsigned int;
  using Values = sdd::values::bitset<130>;
};
std::unique_ptr<IWorld> make_world_w(Runner& r, const WorldConf& w) { return std::unique_ptr<IWorld>(new World<CfgW>(r, w)); }
} // namespace sim
