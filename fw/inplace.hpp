// Which (destination, operand) pairs may be the same object. Included: operations the documentation describes as
// in-place capable or that are computed component by component / through temporaries as part of their contract.
// Left out (documentation makes no such promise, or the source takes restrict pointers): *_make, vec*_refract with
// the normal as destination, vec*_ortho, projections (project/unproject), ray_at, rectangular transposes, mat2_mulv,
// crop_until with the clamp box as destination, quat_mul, decompose.
static bool allowed(const std::string &n, int o, int i) {
  if (ends(n, "_make") || n == "quat_mul" || starts(n, "decompose") || starts(n, "project") || starts(n, "unproject") || n == "ray_at" || n == "mat2_mulv") return false;
  if (starts(n, "vec") || starts(n, "ivec") || n == "cross" || n == "normalize_to") {
    if (ends(n, "_ortho") || ends(n, "_refract") || ends(n, "_faceforward") || ends(n, "_stepr")) return false;
    if (ends(n, "_reflect")) return i == 0;
    return true;
  }
  if (ends(n, "_transpose") || ends(n, "_transpose_to")) { static const std::set<std::string> sq = {"mat2_transpose_to", "mat3_transpose_to", "mat4_transpose_to"}; return sq.count(n) > 0; }
  if (starts(n, "mat") || starts(n, "quat_") || n == "mul" || n == "mul_rot") return true;
  static const std::set<std::string> aff = {"scale_to", "translate_to", "translated_to", "rotate_x", "rotate_y", "rotate_z", "rotated_x", "rotated_y", "rotated_z", "rotate2d_to", "scale2d_to", "translate2d_to", "sphere_transform", "sphere_merge"};
  if (aff.count(n)) return true;
  if (ends(n, "_crop_until")) return i < 2;
  return starts(n, "aabb");
}
// tests of calls with nothing to alias are dropped
static bool aliasable(const vf_fn *f) { for (int o = 0; o < f->nargs; o++) { const vf_arg &g = f->args[o]; if (g.role == 'i' || (g.kind != 'f' && g.kind != 'i')) continue; for (int i = 0; i < o; i++) { const vf_arg &h = f->args[i]; if (h.role == 'i' && h.kind == g.kind && h.len == g.len && g.align <= h.align && allowed(f->name, o, i)) return true; } } return false; }
