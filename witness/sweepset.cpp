/* The set of the sweep (sweep_set.hpp) on top of the tree. */
#include "common.hpp"
#include <poly_ops/sweep_set.hpp>
extern "C" long w_less(long,long) noexcept;
using U = std::size_t;
using N = poly_ops::detail::set_node<long,U>;
struct V { N *p; U n; N &operator[](U i) { return p[i]; } const N &operator[](U i) const { return p[i]; } N *data() { return p; } const N *data() const { return p; } U size() const { return n; } };
struct Cmp { bool operator()(long a,long b) const { return w_less(a,b) != 0; } };
using SS = poly_ops::detail::sweep_set<long,U,Cmp,V>;
using RT = SS::node_traits;
using RP = SS::node_ptr;
extern "C" {
U r_parent(V *v,U i) { return RT::get_parent(RP(v,i)).i; }
U r_left(V *v,U i) { return RT::get_left(RP(v,i)).i; }
U r_right(V *v,U i) { return RT::get_right(RP(v,i)).i; }
long r_color(V *v,U i) { return RT::get_color(RP(v,i)) == RT::red(); }
void r_set_parent(V *v,U i,U j) { RT::set_parent(RP(v,i),RP(v,j)); }
void r_set_left(V *v,U i,U j) { RT::set_left(RP(v,i),RP(v,j)); }
void r_set_right(V *v,U i,U j) { RT::set_right(RP(v,i),RP(v,j)); }
void r_set_color(V *v,U i,bool red) { RT::set_color(RP(v,i),red ? RT::red() : RT::black()); }
bool r_null(V *v,U i) { return static_cast<bool>(RP(v,i)); }
bool r_same(V *v,U i,U j) { return RP(v,i) == RP(v,j); }
U r_of(SS *s,N *n) { return s->to_node_ptr(*n).i; }
U r_erase(SS *s,U i) { return s->erase(i).index(); }
U r_erase_it(SS *s,V *v,U i) { return s->erase(SS::iterator(RP(v,i))).index(); }
U r_insert(SS *s,U i,long *is) { auto r = s->insert(i); *is = r.second; return r.first.index(); }
U r_before(SS *s,V *v,U i,U j) { return s->insert_before(SS::iterator(RP(v,i)),j).index(); }
U r_begin(SS *s) { return s->begin().index(); }
U r_end(SS *s) { return s->end().index(); }
U r_inc(V *v,U i) { SS::iterator x(RP(v,i)); ++x; return x.index(); }
U r_dec(V *v,U i) { SS::iterator x(RP(v,i)); --x; return x.index(); }
U r_inc_(V *v,U i,U *o) { SS::iterator x(RP(v,i)); auto y = x++; *o = x.index(); return y.index(); }
U r_dec_(V *v,U i,U *o) { SS::iterator x(RP(v,i)); auto y = x--; *o = x.index(); return y.index(); }
bool r_empty(SS *s) { return s->empty(); }
bool r_unique(SS *s,U i) { return s->unique(i); }
void r_init(SS *s,U i) { s->init_node(i); }
void r_clear(SS *s) { s->clear(); }
bool r_cmp(SS *s,V *v,U i,U j) { return s->node_comp()(RP(v,i),RP(v,j)); }
}
