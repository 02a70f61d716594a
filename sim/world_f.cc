#include "world_impl.hh"

namespace sim {
struct CfgF : sdd::conf1 {};
std::unique_ptr<IWorld> make_world_f(Runner& r, const WorldConf& w) { return std::unique_ptr<IWorld>(new World<CfgF>(r, w)); }
} // namespace sim
