// Out-of-line parts of libstdc++ that the harness bitcode needs, written so that
// the engine can execute them (they are assumptions about the C++ library).
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <list>
#include <algorithm>
extern "C" { int vh_errno = 0; extern const char vh_empty[]; const char vh_empty[1] = {0}; extern char __libc_single_threaded; char __libc_single_threaded = 1; }
namespace std
{
    // ---- red-black tree
    struct TreeOps
    {
        static void rotL(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root)
        {
            _Rb_tree_node_base *const y = x->_M_right;
            x->_M_right = y->_M_left;
            if (y->_M_left != 0) y->_M_left->_M_parent = x;
            y->_M_parent = x->_M_parent;
            if (x == root) root = y;
            else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
            else x->_M_parent->_M_right = y;
            y->_M_left = x;
            x->_M_parent = y;
        }
        static void rotR(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root)
        {
            _Rb_tree_node_base *const y = x->_M_left;
            x->_M_left = y->_M_right;
            if (y->_M_right != 0) y->_M_right->_M_parent = x;
            y->_M_parent = x->_M_parent;
            if (x == root) root = y;
            else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
            else x->_M_parent->_M_left = y;
            y->_M_right = x;
            x->_M_parent = y;
        }
    };
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
    {
        if (x->_M_right != 0)
        {
            x = x->_M_right;
            while (x->_M_left != 0) x = x->_M_left;
        }
        else
        {
            _Rb_tree_node_base *y = x->_M_parent;
            while (x == y->_M_right) { x = y; y = y->_M_parent; }
            if (x->_M_right != y) x = y;
        }
        return x;
    }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
        else if (x->_M_left != 0)
        {
            _Rb_tree_node_base *y = x->_M_left;
            while (y->_M_right != 0) y = y->_M_right;
            x = y;
        }
        else
        {
            _Rb_tree_node_base *y = x->_M_parent;
            while (x == y->_M_left) { x = y; y = y->_M_parent; }
            x = y;
        }
        return x;
    }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw()
    {
        _Rb_tree_node_base *&root = header._M_parent;
        x->_M_parent = p;
        x->_M_left = 0;
        x->_M_right = 0;
        x->_M_color = _S_red;
        if (left)
        {
            p->_M_left = x;
            if (p == &header) { header._M_parent = x; header._M_right = x; }
            else if (p == header._M_left) header._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == header._M_right) header._M_right = x;
        }
        while (x != root && x->_M_parent->_M_color == _S_red)
        {
            _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left)
            {
                _Rb_tree_node_base *const y = xpp->_M_right;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else
                {
                    if (x == x->_M_parent->_M_right) { x = x->_M_parent; TreeOps::rotL(x, root); }
                    x->_M_parent->_M_color = _S_black;
                    xpp->_M_color = _S_red;
                    TreeOps::rotR(xpp, root);
                }
            }
            else
            {
                _Rb_tree_node_base *const y = xpp->_M_left;
                if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
                else
                {
                    if (x == x->_M_parent->_M_left) { x = x->_M_parent; TreeOps::rotR(x, root); }
                    x->_M_parent->_M_color = _S_black;
                    xpp->_M_color = _S_red;
                    TreeOps::rotL(xpp, root);
                }
            }
        }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw()
    {
        _Rb_tree_node_base *&root = header._M_parent;
        _Rb_tree_node_base *&leftmost = header._M_left;
        _Rb_tree_node_base *&rightmost = header._M_right;
        _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
        if (y->_M_left == 0) x = y->_M_right;
        else if (y->_M_right == 0) x = y->_M_left;
        else
        {
            y = y->_M_right;
            while (y->_M_left != 0) y = y->_M_left;
            x = y->_M_right;
        }
        if (y != z)
        {
            z->_M_left->_M_parent = y;
            y->_M_left = z->_M_left;
            if (y != z->_M_right)
            {
                xp = y->_M_parent;
                if (x) x->_M_parent = y->_M_parent;
                y->_M_parent->_M_left = x;
                y->_M_right = z->_M_right;
                z->_M_right->_M_parent = y;
            }
            else xp = y;
            if (root == z) root = y;
            else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
            else z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent;
            std::swap(y->_M_color, z->_M_color);
            y = z;
        }
        else
        {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            if (root == z) root = x;
            else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
            else z->_M_parent->_M_right = x;
            if (leftmost == z)
            {
                if (z->_M_right == 0) leftmost = z->_M_parent;
                else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
            }
            if (rightmost == z)
            {
                if (z->_M_left == 0) rightmost = z->_M_parent;
                else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
            }
        }
        if (y->_M_color != _S_red)
        {
            while (x != root && (x == 0 || x->_M_color == _S_black))
                if (x == xp->_M_left)
                {
                    auto *w = xp->_M_right;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; TreeOps::rotL(xp, root); w = xp->_M_right; }
                    if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else
                    {
                        if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; TreeOps::rotR(w, root); w = xp->_M_right; }
                        w->_M_color = xp->_M_color;
                        xp->_M_color = _S_black;
                        if (w->_M_right) w->_M_right->_M_color = _S_black;
                        TreeOps::rotL(xp, root);
                        break;
                    }
                }
                else
                {
                    auto *w = xp->_M_left;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; TreeOps::rotR(xp, root); w = xp->_M_left; }
                    if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else
                    {
                        if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; TreeOps::rotL(w, root); w = xp->_M_left; }
                        w->_M_color = xp->_M_color;
                        xp->_M_color = _S_black;
                        if (w->_M_left) w->_M_left->_M_color = _S_black;
                        TreeOps::rotR(xp, root);
                        break;
                    }
                }
            if (x) x->_M_color = _S_black;
        }
        return y;
    }
    // ---- hash tables
    namespace __detail
    {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 43, 53, 67, 89, 113, 151, 199, 257, 337, 433, 569, 757, 1009, 1361, 1823, 2437, 3251, 4337, 5791, 7727, 10303, 13759, 18353, 24473, 32647, 43541, 58061, 77417, 103231, 137651};
            for (size_t p : primes)
                if (p >= n)
                {
                    _M_next_resize = (size_t)(p * (double)_M_max_load_factor);
                    return p;
                }
            _M_next_resize = ~0ul;
            return 137651;
        }
        std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
        {
            if (ne + ni > _M_next_resize)
            {
                double minb = (double)std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
                if (minb >= (double)nb) return {true, _M_next_bkt(std::max<size_t>((size_t)minb + 1, nb * 2))};
                _M_next_resize = (size_t)((double)nb * (double)_M_max_load_factor);
                return {false, 0};
            }
            return {false, 0};
        }
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept
        {
            this->_M_next = p;
            this->_M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            _M_prev->_M_next = _M_next;
            _M_next->_M_prev = _M_prev;
        }
    }
    size_t _Hash_bytes(const void *ptr, size_t len, size_t seed)
    {
        const unsigned char *p = (const unsigned char *)ptr;
        size_t h = seed;
        for (size_t i = 0; i < len; i++) h = h * 1099511628211ul + p[i];
        return h;
    }
}
