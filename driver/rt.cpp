// Bodies of the parts of the C++ and C run-time libraries that exist only as
// compiled code in libstdc++ and libc.  Linked (only what is needed) into the
// module under analysis, so that code which uses these containers, strings and
// functions is analysed like any other.
#include <string>
#include <list>
#include <map>
#include <mutex>
#include <cstring>
#include <cstdlib>
#include <pthread.h>

template class std::basic_string<char>;

namespace std {

using N = _Rb_tree_node_base;

static N* next(N* x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    N* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}

static N* prev(N* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left) {
        N* y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        return y;
    }
    N* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}

N* _Rb_tree_increment(N* x) throw()
{
    return next(x);
}
const N* _Rb_tree_increment(const N* x) throw()
{
    return next(const_cast<N*>(x));
}
N* _Rb_tree_decrement(N* x) throw()
{
    return prev(x);
}
const N* _Rb_tree_decrement(const N* x) throw()
{
    return prev(const_cast<N*>(x));
}

static void rot_left(N* x, N*& root)
{
    N* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left)
        y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root)
        root = y;
    else if (x == x->_M_parent->_M_left)
        x->_M_parent->_M_left = y;
    else
        x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}

static void rot_right(N* x, N*& root)
{
    N* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right)
        y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root)
        root = y;
    else if (x == x->_M_parent->_M_right)
        x->_M_parent->_M_right = y;
    else
        x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}

void _Rb_tree_insert_and_rebalance(
    const bool left,
    N* x,
    N* p,
    N& header) throw()
{
    N*& root = header._M_parent;
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        N* g = x->_M_parent->_M_parent;
        const bool l = x->_M_parent == g->_M_left;
        N* u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) {
            x->_M_parent->_M_color = _S_black;
            u->_M_color = _S_black;
            g->_M_color = _S_red;
            x = g;
            continue;
        }
        if (l) {
            if (x == x->_M_parent->_M_right) {
                x = x->_M_parent;
                rot_left(x, root);
            }
            x->_M_parent->_M_color = _S_black;
            g->_M_color = _S_red;
            rot_right(g, root);
        } else {
            if (x == x->_M_parent->_M_left) {
                x = x->_M_parent;
                rot_right(x, root);
            }
            x->_M_parent->_M_color = _S_black;
            g->_M_color = _S_red;
            rot_left(g, root);
        }
    }
    root->_M_color = _S_black;
}

N* _Rb_tree_rebalance_for_erase(N* const z, N& header) throw()
{
    N*& root = header._M_parent;
    N*& leftmost = header._M_left;
    N*& rightmost = header._M_right;
    N* y = z;
    N* x = nullptr;
    N* xp = nullptr;
    if (!y->_M_left)
        x = y->_M_right;
    else if (!y->_M_right)
        x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x)
                x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else
            xp = y;
        if (root == z)
            root = y;
        else if (z->_M_parent->_M_left == z)
            z->_M_parent->_M_left = y;
        else
            z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        _Rb_tree_color c = y->_M_color;
        y->_M_color = z->_M_color;
        z->_M_color = c;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x)
            x->_M_parent = y->_M_parent;
        if (root == z)
            root = x;
        else if (z->_M_parent->_M_left == z)
            z->_M_parent->_M_left = x;
        else
            z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right)
                leftmost = z->_M_parent;
            else
                leftmost = N::_S_minimum(x);
        }
        if (rightmost == z) {
            if (!z->_M_left)
                rightmost = z->_M_parent;
            else
                rightmost = N::_S_maximum(x);
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                N* w = xp->_M_right;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rot_left(xp, root);
                    w = xp->_M_right;
                }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black)
                    && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) {
                        w->_M_left->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rot_right(w, root);
                        w = xp->_M_right;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right)
                        w->_M_right->_M_color = _S_black;
                    rot_left(xp, root);
                    break;
                }
            } else {
                N* w = xp->_M_left;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rot_right(xp, root);
                    w = xp->_M_left;
                }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black)
                    && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) {
                        w->_M_right->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rot_left(w, root);
                        w = xp->_M_left;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left)
                        w->_M_left->_M_color = _S_black;
                    rot_right(xp, root);
                    break;
                }
            }
        }
        if (x)
            x->_M_color = _S_black;
    }
    return y;
}

namespace __detail {

void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}

void _List_node_base::_M_unhook() noexcept
{
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}

void _List_node_base::_M_transfer(
    _List_node_base* const first,
    _List_node_base* const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        _M_prev->_M_next = first;
        _List_node_base* const t = _M_prev;
        _M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = t;
    }
}

void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do {
        _List_node_base* n = t->_M_next;
        t->_M_next = t->_M_prev;
        t->_M_prev = n;
        t = n;
    } while (t != this);
}

void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}

} // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    size_t h = seed;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ul;
    return h;
}

} // namespace std

namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void)
{
    __once_call();
}
} // namespace std

static int the_errno;

extern "C" {
int* __errno_location(void) noexcept
{
    return &the_errno;
}
int pthread_once(pthread_once_t* c, void (*f)(void))
{
    if (!*c) {
        f();
        *c = 2;
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept
{
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept
{
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept
{
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t*) noexcept
{
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t*) noexcept
{
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t*) noexcept
{
    return 0;
}
int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept
{
    return 0;
}
void* qart_memchr(const void* s, int c, size_t n) noexcept __asm__("memchr");
void* qart_memchr(const void* s, int c, size_t n) noexcept
{
    const unsigned char* p = static_cast<const unsigned char*>(s);
    for (size_t i = 0; i < n; ++i)
        if (p[i] == static_cast<unsigned char>(c))
            return const_cast<unsigned char*>(p + i);
    return nullptr;
}
int strcmp(const char* a, const char* b) noexcept
{
    while (*a && *a == *b) {
        ++a;
        ++b;
    }
    return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
int strncmp(const char* a, const char* b, size_t n) noexcept
{
    for (; n; --n, ++a, ++b) {
        if (*a != *b)
            return static_cast<unsigned char>(*a)
                   - static_cast<unsigned char>(*b);
        if (!*a)
            break;
    }
    return 0;
}
char* strcpy(char* d, const char* s) noexcept
{
    char* r = d;
    while ((*d++ = *s++))
        ;
    return r;
}
char* strncpy(char* d, const char* s, size_t n) noexcept
{
    size_t i = 0;
    for (; i < n && s[i]; ++i)
        d[i] = s[i];
    for (; i < n; ++i)
        d[i] = 0;
    return d;
}
int posix_memalign(void** p, size_t, size_t n) noexcept
{
    void* q = malloc(n);
    if (!q)
        return 12;
    *p = q;
    return 0;
}
void* aligned_alloc(size_t, size_t n) noexcept
{
    return malloc(n);
}
void* memalign(size_t, size_t n) noexcept
{
    return malloc(n);
}
void* calloc(size_t k, size_t n) noexcept
{
    if (n && k > ~size_t(0) / n)
        return nullptr;
    unsigned char* q = static_cast<unsigned char*>(malloc(k * n));
    if (q)
        for (size_t i = 0; i < k * n; ++i)
            q[i] = 0;
    return q;
}
}
