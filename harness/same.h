// Two forests are the same model.
#ifndef SAME_H_
#define SAME_H_
static bool same(const TreeNode& a, const TreeNode& b) {
  if (a.has_left_child() != b.has_left_child() || a.has_right_child() != b.has_right_child() || a.has_split() != b.has_split()) return false; if (!near_(a.score(), b.score(), 1e-6)) return false;
  if (a.has_split()) { auto &s = a.split(), &t = b.split(); if (s.feature() != t.feature() || s.has_float_split() != t.has_float_split() || s.float_split().threshold() != t.float_split().threshold() || s.float_split().missing_to_right_child() != t.float_split().missing_to_right_child() || s.cat_split().category_size() != t.cat_split().category_size()) return false; if (!near_(s.gain(), t.gain(), 1e-6)) return false; for (int i = 0; i < s.cat_split().category_size(); ++i) if (s.cat_split().category(i) != t.cat_split().category(i)) return false; }
  return !a.has_left_child() || (same(a.left_child(), b.left_child()) && same(a.right_child(), b.right_child()));
}
static bool same(const Forest& a, const Forest& b) { if (a.tree_size() != b.tree_size()) return false; for (int i = 0; i < a.tree_size(); ++i) if (!same(a.tree(i), b.tree(i))) return false; return true; }
#endif
