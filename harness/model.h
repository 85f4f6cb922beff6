// Reference interpretation of a tree / forest.
#ifndef MODEL_H_
#define MODEL_H_
#include "src/proto/tree.pb.h"
struct Row { float x; std::string s; };
static inline bool m_left(const gbdt::Split& sp, const Row& r) {
  if (sp.has_cat_split()) { for (const auto& c : sp.cat_split().category()) if (c == r.s) return true; return false; }
  return nanb(r.x) ? !sp.float_split().missing_to_right_child() : r.x < sp.float_split().threshold();
}
static inline const gbdt::TreeNode* m_leaf(const gbdt::TreeNode& t, const Row& r) { const gbdt::TreeNode* p = &t; while (p->has_left_child()) p = m_left(p->split(), r) ? &p->left_child() : &p->right_child(); return p; }
static inline double m_tree(const gbdt::TreeNode& t, const Row& r) { return m_leaf(t, r)->score(); }
static inline bool near_(double a, double b, double e) { return (a - b <= e) & (b - a <= e); }
#endif
