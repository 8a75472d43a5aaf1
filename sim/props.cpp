#include "common.h"
namespace wl {
extern const PropDef par_props[], edit_props[], env_props[];
extern const int par_count, edit_count, env_count;
const PropDef *find_prop(const std::string &id) {
    for (int i = 0; i < par_count; i++)
        if (id == par_props[i].id) return &par_props[i];
    for (int i = 0; i < edit_count; i++)
        if (id == edit_props[i].id) return &edit_props[i];
    for (int i = 0; i < env_count; i++)
        if (id == env_props[i].id) return &env_props[i];
    return nullptr;
}
}  // namespace wl
