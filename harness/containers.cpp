// Random histories of calls on april's own containers and utilities, each next to a plain model.
//   containers SECTION SEED COUNT
// prints "OK section=... histories=... ops=... states=..." or
// "MISMATCH section=... history=... op=...: what" and ends with 3.
#include <common.h>
#include <algorithm.h>
#include <lib.h>

#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iterator>
#include <map>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_set>
#include <vector>

namespace X_ROOT_NS { namespace harness {

static std::mt19937_64 g_rng;
static const char * g_section = "";
static long g_history = 0, g_ops = 0;
static std::unordered_set<uint64_t> g_states;
static std::vector<std::string> g_trace;

static long rnd(long lo, long hi) { return lo + (long)(g_rng() % (uint64_t)(hi - lo + 1)); }
static bool chance(int percent) { return rnd(0, 99) < percent; }

static void note(const char * fmt, ...)
{
    char b[160];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    g_ops++;
    g_trace.push_back(b);
    if (g_trace.size() > 40) g_trace.erase(g_trace.begin());
}

static void state(uint64_t h) { if (g_states.size() < 200000) g_states.insert(h * 0x9E3779B97F4A7C15ull); }
template<typename C> static void state_of(const C & c)
{
    uint64_t h = 1469598103934665603ull;
    for (auto & v : c) { h ^= (uint64_t)v; h *= 1099511628211ull; }
    state(h);
}

[[noreturn]] static void bad(const char * fmt, ...)
{
    char b[400];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    for (auto & s : g_trace) ::printf("  %s\n", s.c_str());
    ::printf("MISMATCH section=%s history=%ld op=%ld: %s\n", g_section, g_history, g_ops, b);
    fflush(stdout);
    _exit(3);
}
#define CHECK(_c, ...)  do { if (!(_c)) bad(__VA_ARGS__); } while (0)

template<typename F> static bool throws(F f)
{
    try { f(); } catch (...) { return true; }
    return false;
}

static std::string narrow(const string_t & s)
{
    std::string r;
    for (auto c : s)
        if (c >= 32 && c < 127) r += (char)c;
        else { char b[16]; snprintf(b, sizeof(b), "\\u%x", (unsigned)c); r += b; }
    return r;
}
static string_t wide(const std::string & s) { return string_t(s.begin(), s.end()); }

// ------------------------------------------------------------------ heap_t

template<int N> struct blob_t
{
    unsigned char b[N];
    blob_t(int v) { for (int i = 0; i < N; i++) b[i] = (unsigned char)(v + i * 7); }
    bool is(int v) const
    {
        for (int i = 0; i < N; i++) if (b[i] != (unsigned char)(v + i * 7)) return false;
        return true;
    }
};

template<int N> static void heap_history()
{
    typedef blob_t<N> t;
    int row = chance(80)? (int)rnd(1, 7) : 0;
    al::heap_t<t> heap(nullptr, row);
    std::vector<int> model;
    int len = (int)rnd(5, 120), top = row? 40 : 2 * 1024 / N + 20;
    note("heap_t<%d bytes> row_size=%d", N, row);

    auto verify = [&] {
        CHECK(heap.size() == model.size(), "size %zu, expected %zu", heap.size(), model.size());
        for (size_t i = 0; i < model.size(); i++)
            CHECK(heap[i].is(model[i]), "element %zu of %zu is not the one put there", i, model.size());
        size_t i = 0;
        for (auto it = heap.begin(); it != heap.end(); ++it, i++)
            CHECK(i < model.size() && (*it)->is(model[i]), "iteration differs at %zu", i);
        CHECK(i == model.size(), "iteration visits %zu of %zu", i, model.size());
        if (!model.empty())
            CHECK(heap.last() == &heap[model.size() - 1] , "last() is not the last of %zu", model.size());
    };

    for (int k = 0; k < len; k++)
    {
        int v = (int)rnd(0, 250);
        int op = (int)rnd(0, 99);
        if (op < 40 || model.empty())
        {
            note("new_obj(%d) at size %zu", v, model.size());
            t * p = heap.new_obj(v);
            CHECK(p->is(v), "new object");
            model.push_back(v);
        }
        else if (op < 50)
        {
            int n = (int)rnd(0, row? 9 : top / 2);
            note("new_objs(%d) at size %zu", n, model.size());
            std::vector<t *> ps;
            size_t at = heap.new_objs((size_t)n, std::back_inserter(ps), v);
            CHECK(at == model.size() && ps.size() == (size_t)n, "new_objs index");
            for (int i = 0; i < n; i++) model.push_back(v);
        }
        else if (op < 72)
        {
            size_t i = (size_t)rnd(0, (long)model.size());
            note("insert(%zu, %d) at size %zu", i, v, model.size());
            heap.insert(i, v);
            model.insert(model.begin() + i, v);
        }
        else if (op < 94)
        {
            size_t i = chance(30)? model.size() - 1 : (size_t)rnd(0, (long)model.size() - 1);
            note("delete_(%zu) at size %zu", i, model.size());
            heap.delete_(i);
            model.erase(model.begin() + i);
        }
        else if (op < 97)
        {
            note("bad index at size %zu", model.size());
            CHECK(throws([&] { heap.insert(model.size() + 1, 1); }), "insert beyond the end");
            CHECK(throws([&] { heap.delete_(model.size()); }), "delete beyond the end");
        }
        else
        {
            note("clear");
            heap.clear();
            model.clear();
        }
        verify();
        state((uint64_t)row * 1000003 + model.size() * 131 + N);
    }
}

static void s_heap()
{
    switch (rnd(0, 5))
    {
        case 0: return heap_history<1>();
        case 1: return heap_history<4>();
        case 2: return heap_history<8>();
        case 3: return heap_history<12>();
        case 4: return heap_history<24>();
        default: return heap_history<200>();
    }
}

// pointers handed out by heap_t stay valid while it grows
static void s_heap_addr()
{
    al::heap_t<long> heap(nullptr, chance(50)? rnd(1, 9) : 0);
    std::vector<std::pair<long *, long>> ps;
    int n = (int)rnd(1, 700);
    for (int i = 0; i < n; i++)
    {
        note("new_obj");
        long v = (long)g_rng();
        ps.push_back({ heap.new_obj(v), v });
    }
    std::set<long *> seen;
    for (auto & p : ps)
    {
        CHECK(*p.first == p.second, "object of %d changed while the heap grew", n);
        CHECK(seen.insert(p.first).second, "one address given twice");
    }
    state(n);

    al::heap_t<int[]> arrays(nullptr, chance(60)? rnd(1, 40) : 0);
    std::vector<std::pair<int *, int>> as;
    int m = (int)rnd(1, 120);
    for (int i = 0; i < m; i++)
    {
        int sz = (int)rnd(0, chance(10)? 600 : 30);
        note("acquire(%d)", sz);
        int * p = arrays.acquire((size_t)sz);
        for (int k = 0; k < sz; k++) p[k] = i * 1000 + k;
        as.push_back({ p, sz });
    }
    CHECK(arrays.count() == (size_t)m, "count");
    for (int i = 0; i < m; i++)
        for (int k = 0; k < as[i].second; k++)
            CHECK(as[i].first[k] == i * 1000 + k, "array %d of %d overlaps another", i, m);
    state((uint64_t)m * 7919);
}

// ------------------------------------------------------------------ xheap_t

static std::map<int, int> g_destroyed;
template<int N> struct counted_t : public object_t
{
    counted_t(int id) : id(id) { memset(pad, id & 0xFF, sizeof(pad)); }
    virtual ~counted_t() override
    {
        for (size_t i = 0; i < sizeof(pad); i++)
            CHECK(pad[i] == (unsigned char)(id & 0xFF), "object %d (%zu bytes) was overwritten", id, sizeof(*this));
        g_destroyed[id]++;
    }
    X_TO_STRING_IMPL(_T("counted_t"))
    int id;
    unsigned char pad[N];
};

static void s_xheap()
{
    g_destroyed.clear();
    int objects = 0;
    {
        al::xheap_t heap;
        std::vector<std::pair<unsigned char *, int>> raw;
        int n = (int)rnd(1, 400);
        int kinds = (int)rnd(1, 5);
        for (int i = 0; i < n; i++)
        {
            if (chance(50))
            {
                note("new object");
                int id = objects++;
                memory_t * m = &heap;
                switch (rnd(0, kinds))
                {
                    case 0: memory_t::new_obj<counted_t<4>>(m, id); break;
                    case 1: memory_t::new_obj<counted_t<12>>(m, id); break;
                    case 2: memory_t::new_obj<counted_t<60>>(m, id); break;
                    case 3: memory_t::new_obj<counted_t<112>>(m, id); break;
                    case 4: memory_t::new_obj<counted_t<113>>(m, id); break;
                    default: memory_t::new_obj<counted_t<500>>(m, id); break;
                }
            }
            else
            {
                int sz = (int)rnd(0, chance(20)? 1500 : chance(50)? 140 : 24);
                note("alloc(%d)", sz);
                unsigned char * p = (unsigned char *)heap.alloc((size_t)sz);
                CHECK(p != nullptr && (uintptr_t)p % 4 == 0, "alignment of %d bytes", sz);
                memset(p, i & 0xFF, (size_t)sz);
                raw.push_back({ p, sz * 256 + (i & 0xFF) });
            }
        }
        for (auto & r : raw)
            for (int k = 0; k < r.second / 256; k++)
                CHECK(r.first[k] == (r.second & 0xFF), "bytes of a %d byte block changed", r.second / 256);
        state((uint64_t)n * 131 + objects);
    }
    CHECK((int)g_destroyed.size() == objects, "%zu of %d objects destroyed with the heap", g_destroyed.size(), objects);
    for (auto & d : g_destroyed)
        CHECK(d.second == 1, "object destroyed %d times", d.second);
}

// ------------------------------------------------------------------ svector_t

// Gives every block back at once, and knows which ones are its own.
class own_memory_t : public object_t, public memory_t
{
public:
    virtual void * alloc(size_t size, memory_flag_t flag) override
    {
        void * p = ::malloc(size? size : 1);
        blocks.insert(p);
        return p;
    }
    virtual void free(void * p) override
    {
        CHECK(blocks.erase(p) == 1, "a block is given back that is not of this memory");
        ::free(p);
    }
    virtual void * realloc(void *, size_t, memory_flag_t) override { return nullptr; }
    X_TO_STRING_IMPL(_T("own_memory_t"))
    std::set<void *> blocks;
};

template<typename T, size_t N> static void svector_history()
{
    typedef al::svector_t<T, N> v_t;
    struct pair_t { v_t v; std::vector<T> m; };
    own_memory_t memory;
    memory_t * mem = chance(50)? &memory : nullptr;
    {
    std::deque<pair_t> all;
    all.push_back(pair_t { v_t(mem), {} });

    auto verify = [&](pair_t & p) {
        CHECK(p.v.size() == p.m.size(), "size %zu, expected %zu", p.v.size(), p.m.size());
        CHECK(p.v.empty() == p.m.empty(), "empty()");
        for (size_t i = 0; i < p.m.size(); i++)
            CHECK(p.v[i] == p.m[i] && p.v.at(i) == p.m[i], "element %zu of %zu", i, p.m.size());
        size_t i = 0;
        for (auto & x : p.v) { CHECK(i < p.m.size() && x == p.m[i], "iteration at %zu", i); i++; }
        CHECK(i == p.m.size(), "iteration visits %zu of %zu", i, p.m.size());
    };

    int len = (int)rnd(5, 80);
    for (int k = 0; k < len; k++)
    {
        size_t w = (size_t)rnd(0, (long)all.size() - 1);
        pair_t & p = all[w];
        T v = (T)g_rng();
        int op = (int)rnd(0, 99);
        if (op < 6 && !p.m.empty())
        {
            size_t i = (size_t)rnd(0, (long)p.m.size() - 1);
            note("%zu.push_back(its own element %zu) at %zu", w, i, p.m.size());
            p.v.push_back(p.v[i]);
            p.m.push_back(T(p.m[i]));
        }
        else if (op < 45)
        {
            note("%zu.push_back at %zu", w, p.m.size());
            T & r = p.v.push_back(v);
            CHECK(r == v, "push_back's result");
            p.m.push_back(v);
        }
        else if (op < 52)
        {
            note("%zu.pop_back at %zu", w, p.m.size());
            if (p.m.empty())
                CHECK(throws([&] { p.v.pop_back(); }), "pop_back of an empty vector");
            else { p.v.pop_back(); p.m.pop_back(); }
        }
        else if (op < 72)
        {
            std::vector<T> vs;
            for (int n = (int)rnd(0, chance(20)? 30 : 4); n-- > 0;) vs.push_back((T)g_rng());
            size_t at = chance(25)? 0 : (size_t)rnd(0, (long)p.m.size());
            note("%zu.insert(%zu values, %zu) at %zu", w, vs.size(), at, p.m.size());
            if (at == 0 && chance(50)) p.v.push_front(vs); else p.v.insert(vs, at);
            p.m.insert(p.m.begin() + at, vs.begin(), vs.end());
        }
        else if (op < 80)
        {
            size_t to = (size_t)rnd(0, (long)p.m.size() + 2);
            note("%zu.truncate(%zu) at %zu", w, to, p.m.size());
            p.v.truncate(to);
            if (to < p.m.size()) p.m.resize(to);
        }
        else if (op < 83) { note("%zu.clear", w); p.v.clear(); p.m.clear(); }
        else if (op < 88 && all.size() < 6)
        {
            note("copy of %zu at %zu", w, p.m.size());
            all.push_back(pair_t { v_t(p.v), p.m });
        }
        else if (op < 92 && all.size() < 6)
        {
            note("from container of %zu", p.m.size());
            all.push_back(pair_t { v_t(p.m.begin(), p.m.end()), p.m });
        }
        else if (op < 96)
        {
            note("move %zu out and back at %zu", w, p.m.size());
            v_t other(std::move(p.v));
            CHECK(other.size() == p.m.size(), "moved size %zu, expected %zu", other.size(), p.m.size());
            for (size_t i = 0; i < p.m.size(); i++) CHECK(other[i] == p.m[i], "moved element %zu", i);
            p.v = std::move(other);
        }
        else
        {
            note("bad index at %zu", p.m.size());
            std::vector<T> vs(1, v);
            CHECK(throws([&] { p.v.insert(vs, p.m.size() + 1); }), "insert beyond the end");
        }
        for (auto & q : all) verify(q);
        state(all[w].m.size() * 64 + N);
    }
    }
    CHECK(memory.blocks.empty(), "%zu blocks are never given back", memory.blocks.size());
}

static void s_svector()
{
    switch (rnd(0, 5))
    {
        case 0: return svector_history<int, 8>();
        case 1: return svector_history<long, 2>();
        case 2: return svector_history<uint8_t, 16>();
        case 3: return svector_history<uint16_t, 3>();
        case 4: return svector_history<long, 5>();
        default: return svector_history<int, 32>();
    }
}

// ------------------------------------------------------------------ lr_tree

typedef al::lr_tree_node_t<int> node_t;

struct mtree_t { int value; std::vector<mtree_t *> children; mtree_t * parent; node_t * node; };

static void tree_flat(const mtree_t * t, std::vector<int> & out)
{
    out.push_back(t->value); out.push_back((int)t->children.size());
    for (auto c : t->children) tree_flat(c, out);
}
static void tree_flat(const node_t * t, std::vector<int> & out)
{
    int n = 0;
    t->each_child([&](const node_t *) { n++; });
    out.push_back(t->value); out.push_back(n);
    t->each_child([&](const node_t * c) { tree_flat(c, out); });
}

// Memory that is never zero when it is handed out.
class dirty_memory_t : public own_memory_t
{
public:
    virtual void * alloc(size_t size, memory_flag_t flag = memory_flag_t::__default__) override
    {
        void * p = own_memory_t::alloc(size, flag);
        memset(p, 0x5A, size);
        return p;
    }
    virtual ~dirty_memory_t() override { for (void * p : blocks) ::free(p); }
};

static void s_tree()
{
    al::xheap_t heap;
    dirty_memory_t dirty;
    std::deque<mtree_t> nodes;
    node_t * root = al::new_lr_tree_root(&heap, 7);
    nodes.push_back({ 7, {}, nullptr, root });
    std::vector<mtree_t *> live { &nodes[0] };
    int len = (int)rnd(1, 60), wide_at = (int)rnd(0, 30);
    for (int k = 0; k < len; k++)
    {
        mtree_t * at = live[(size_t)rnd(0, (long)live.size() - 1)];
        int v = (int)rnd(0, 500);
        int op = (int)rnd(0, 99);
        if (op < 55)
        {
            note("append_child(%d)", v);
            node_t * n;
            if (chance(50)) n = at->node->append_child((memory_t *)&dirty, v);
            else at->node->append_child(n = new (dirty.alloc(sizeof(node_t))) node_t(v));
            nodes.push_back({ v, {}, at, n });
            at->children.insert(at->children.begin(), &nodes.back());
            live.push_back(&nodes.back());
        }
        else if (op < 75 && at->parent)
        {
            note("append_sibling(%d)", v);
            node_t * n;
            if (chance(50)) n = at->node->append_sibling((memory_t *)&dirty, v);
            else at->node->append_sibling(n = new (dirty.alloc(sizeof(node_t))) node_t(v));
            nodes.push_back({ v, {}, at->parent, n });
            auto & cs = at->parent->children;
            cs.insert(std::find(cs.begin(), cs.end(), at) + 1, &nodes.back());
            live.push_back(&nodes.back());
        }
        else if (op < 88 && at->parent && at->children.empty())
        {
            note("remove leaf");
            if (chance(50)) at->node->remove();
            else CHECK(at->parent->node->remove_child(at->node), "remove_child of a child");
            auto & cs = at->parent->children;
            cs.erase(std::find(cs.begin(), cs.end(), at));
            live.erase(std::find(live.begin(), live.end(), at));
        }
        else if (k == wide_at)
        {
            int n = (int)rnd(200, 320);
            note("%d children", n);
            for (int i = 0; i < n; i++)
            {
                node_t * c = new (dirty.alloc(sizeof(node_t))) node_t(i);
                at->node->append_child(c);
                nodes.push_back({ i, {}, at, c });
                at->children.insert(at->children.begin(), &nodes.back());
            }
        }
        else
        {
            note("find_child(%d)", v);
            mtree_t * want = nullptr;
            for (auto c : at->children) if (c->value == v) { want = c; break; }
            node_t * got = at->node->find_child(v);
            CHECK(got == (want? want->node : nullptr), "find_child");
        }
        std::vector<int> a, b;
        tree_flat(&nodes[0], a);
        tree_flat(root, b);
        CHECK(a == b, "the tree of %zu nodes differs from the model", live.size());
        size_t h = 0;
        for (mtree_t * t = at; t->parent; t = t->parent) h++;
        if (std::find(live.begin(), live.end(), at) != live.end())
            CHECK(at->node->height() == h, "height %zu, expected %zu", at->node->height(), h);
        state_of(a);
    }
    std::vector<int> leaves, got;
    std::function<void (mtree_t *)> walk = [&](mtree_t * t) {
        if (t->parent && t->children.empty()) leaves.push_back(t->value);
        for (auto c : t->children) walk(c);
    };
    walk(&nodes[0]);
    for (auto l : al::pick_leaves(root)) got.push_back(l->value);
    CHECK(leaves == got, "pick_leaves: %zu leaves, expected %zu", got.size(), leaves.size());

    note("store and restore");
    al::lr_tree_state_t<int> st;
    st.store(root);
    node_t * again = st.restore((memory_t *)&dirty);
    std::vector<int> a, b;
    tree_flat(&nodes[0], a);
    tree_flat(again, b);
    CHECK(a == b, "restored tree differs from the stored one");
}

// ------------------------------------------------------------------ small containers

static void s_small()
{
    {   // walk_list
        al::walk_list_t<int> list;
        std::vector<int> model;
        for (int k = (int)rnd(1, 60); k-- > 0;)
        {
            int v = (int)rnd(0, 99);
            int op = (int)rnd(0, 99);
            if (op < 65) { note("walk_list.push_back"); list.push_back(v); model.push_back(v); }
            else if (op < 75)
            {
                note("walk_list.append");
                std::vector<int> vs;
                for (int n = (int)rnd(0, 20); n-- > 0;) vs.push_back((int)rnd(0, 99));
                list.append(vs.begin(), vs.end());
                model.insert(model.end(), vs.begin(), vs.end());
            }
            else if (op < 90)
            {
                int mod = (int)rnd(2, 5);
                int from = chance(60)? 0 : (int)rnd(0, (long)model.size());
                int to = chance(60)? -1 : (int)rnd(from, (long)model.size());
                size_t stop = to < 0? model.size() : (size_t)to;
                note("walk_list.walk from %d to %d of %zu", from, to, model.size());
                std::vector<int> seen, want, keep(model.begin(), model.begin() + from);
                for (size_t i = (size_t)from; i < stop; i++)
                {
                    want.push_back(model[i]);
                    if (model[i] % mod) keep.push_back(model[i]);
                }
                keep.insert(keep.end(), model.begin() + stop, model.end());
                list.walk([&](int x) { seen.push_back(x); return x % mod != 0; }, from, to);
                CHECK(seen == want, "walk visited %zu of %zu", seen.size(), want.size());
                model = keep;
            }
            else if (op < 95) { size_t n = (size_t)rnd(0, 20); note("walk_list.truncate"); list.truncate(n); if (n < model.size()) model.resize(n); }
            else { note("walk_list.clear"); list.clear(); model.clear(); }
            CHECK(list.size() == model.size(), "walk_list size");
            for (size_t i = 0; i < model.size(); i++) CHECK(list[i] == model[i], "walk_list[%zu]", i);
            std::vector<int> all;
            for (int x : list.all()) all.push_back(x);
            CHECK(all == model, "walk_list.all()");
            state_of(model);
        }
    }
    {   // small_map
        al::small_map_t<int, int> map;
        std::map<int, int> model;
        for (int k = (int)rnd(1, 60); k-- > 0;)
        {
            int key = (int)rnd(0, 25), v = (int)rnd(0, 999);
            int op = (int)rnd(0, 99);
            note("small_map op %d key %d of %zu", op, key, model.size());
            if (op < 40) { map.add(key, v); model[key] = v; }
            else if (op < 60) { map[key] = v; model[key] = v; }
            else if (op < 97)
            {
                auto it = map.find(key);
                auto im = model.find(key);
                CHECK((it == map.end()) == (im == model.end()), "small_map.find(%d)", key);
                if (im != model.end())
                {
                    CHECK(it->key == key && it->value == im->second, "small_map value of %d", key);
                    CHECK(map.get(key) == im->second, "small_map.get(%d)", key);
                }
                else CHECK(throws([&] { map.get(key); }), "small_map.get of a missing key");
            }
            else { map.clear(); model.clear(); }
            CHECK(map.size() == model.size() && map.empty() == model.empty(), "small_map size %zu, expected %zu", map.size(), model.size());
            state(model.size() * 31 + (uint64_t)key);
        }
    }
    {   // fixed_map
        std::map<int, int> model;
        int n = (int)rnd(0, 60);
        std::vector<std::pair<int, int>> items;
        while ((int)items.size() < n)
        {
            int key = (int)rnd(-1000, 1000);
            if (model.count(key)) { continue; }
            model[key] = (int)rnd(0, 9999);
            items.push_back({ key, model[key] });
        }
        note("fixed_map of %d", n);
        al::fixed_map_t<int, int> map;
        CHECK(throws([&] { map.append(1, 2); }), "append before init");
        map.init((size_t)n);
        for (auto & p : items) map.append(p.first, p.second);
        CHECK(throws([&] { map.append(5000, 1); }), "append beyond the size");
        map.commit();
        std::vector<int> values, want;
        for (auto it = map.begin(); it != map.end(); ++it) values.push_back(*it);
        for (auto & p : model) want.push_back(p.second);
        CHECK(values == want, "fixed_map is not sorted by key");
        for (int k = 0; k < 60; k++)
        {
            int key = chance(50) && n? items[(size_t)rnd(0, n - 1)].first : (int)rnd(-1001, 1001);
            auto it = map.find(key);
            auto im = model.find(key);
            CHECK((it == map.end()) == (im == model.end()), "fixed_map.find(%d) of %d", key, n);
            if (im != model.end()) CHECK(*it == im->second, "fixed_map value of %d", key);
        }
        state((uint64_t)n);
    }
    {   // auto_cache
        int created = 0;
        al::auto_cache_t<int, int> cache([&](const int & k) { created++; return k * 3 + 1; });
        std::set<int> keys;
        for (int k = 0; k < 40; k++)
        {
            int key = (int)rnd(0, 20);
            note("auto_cache[%d]", key);
            keys.insert(key);
            CHECK(cache[key] == key * 3 + 1, "auto_cache[%d]", key);
            CHECK(created == (int)keys.size(), "auto_cache created %d for %zu keys", created, keys.size());
        }
    }
    {   // respool_wrapper: a released object is handed out again, a held one never
        g_destroyed.clear();
        al::xheap_t heap;
        al::respool_wrapper_t<counted_t<12>> pool(&heap);
        std::set<counted_t<12> *> held;
        int id = 0;
        for (int k = (int)rnd(1, 80); k-- > 0;)
        {
            if (held.empty() || chance(60))
            {
                note("respool.new_obj with %zu held", held.size());
                auto * o = pool.new_obj(id++);
                CHECK(held.insert(o).second, "an object in use was handed out again");
                CHECK(o->id == id - 1, "the new object's state");
            }
            else
            {
                note("respool.release");
                auto it = held.begin();
                std::advance(it, rnd(0, (long)held.size() - 1));
                pool.release(*it);
                held.erase(it);
            }
        }
    }
    {   // bit_array
        size_t init = chance(50)? 1 : (size_t)rnd(1, 300);
        al::bit_array_t bits(init);
        std::vector<bool> model(init, false);
        for (int k = (int)rnd(1, 60); k-- > 0;)
        {
            size_t i = (size_t)rnd(0, chance(30)? 900 : 70);
            if (chance(60))
            {
                bool v = chance(50);
                note("bit_array.set(%zu, %d)", i, v);
                bits.set(i, v);
                if (i >= model.size()) model.resize(i + 1, false);
                model[i] = v;
            }
            else if (chance(60))
            {
                note("bit_array.get(%zu) of %zu", i, model.size());
                CHECK(bits.get(i) == (i < model.size() && model[i]), "bit %zu of %zu", i, model.size());
            }
            else
            {
                bool v = chance(50);
                note("bit_array.index_of(%d, %zu) of %zu", v, i, model.size());
                size_t want = al::bit_array_t::not_found;
                for (size_t j = i; j < model.size(); j++) if (model[j] == v) { want = j; break; }
                CHECK(bits.index_of(v, i) == want, "index_of(%d, %zu) = %zd, expected %zd", v, i, (ssize_t)bits.index_of(v, i), (ssize_t)want);
            }
            state(model.size());
        }
    }
}

// ------------------------------------------------------------------ algorithms

static void s_algo()
{
    std::vector<int> v;
    for (int n = (int)rnd(0, 25); n-- > 0;) v.push_back((int)rnd(0, 6));
    note("vector of %zu", v.size());
    state_of(v);

    {   // split
        int sep = (int)rnd(0, 6);
        std::vector<std::vector<int>> got, want;
        al::split(v.begin(), v.end(), sep, [&](auto b, auto e) { got.push_back(std::vector<int>(b, e)); });
        if (!v.empty())
        {
            want.emplace_back();
            for (int x : v) { if (x == sep) want.emplace_back(); else want.back().push_back(x); }
        }
        CHECK(got == want, "split: %zu parts, expected %zu", got.size(), want.size());
    }
    {   // split_array: maximal runs of equal keys, in order
        std::vector<std::tuple<int, int, int>> got, want;
        al::split_array(v.begin(), v.end(), [](int x) { return x / 2; }, [&](int key, auto b, auto e) {
            got.push_back({ key, (int)(b - v.begin()), (int)(e - v.begin()) });
        });
        for (size_t i = 0; i < v.size();)
        {
            size_t j = i;
            while (j < v.size() && v[j] / 2 == v[i] / 2) j++;
            want.push_back({ v[i] / 2, (int)i, (int)j });
            i = j;
        }
        CHECK(got == want, "split_array: %zu runs, expected %zu", got.size(), want.size());
    }
    {   // select
        auto mx = al::select_max(v.begin(), v.end()), mn = al::select_min(v.begin(), v.end());
        CHECK(mx == v.end()? v.empty() : *mx == *std::max_element(v.begin(), v.end()), "select_max");
        CHECK(mn == v.end()? v.empty() : *mn == *std::min_element(v.begin(), v.end()), "select_min");
        auto big = al::select(v, [](int a, int b) { return a < b; });
        CHECK(v.empty()? big == v.end() : *big == *std::max_element(v.begin(), v.end()), "select");
    }
    {   // min, max, cmp, in
        long a = rnd(-9, 9), b = rnd(-9, 9), c = rnd(-9, 9), d = rnd(-9, 9);
        CHECK(al::max(a, b, c, d) == std::max({ a, b, c, d }), "max");
        CHECK(al::min(a, b, c, d) == std::min({ a, b, c, d }), "min");
        int w = std::make_tuple(a, c) < std::make_tuple(b, d)? -1 : std::make_tuple(a, c) == std::make_tuple(b, d)? 0 : 1;
        CHECK(al::cmp(a, b, c, d) == w, "cmp");
        CHECK(al::in(a, b, c, d) == (a == b || a == c || a == d), "in");
    }
    {   // multikey: one total order, equal exactly when the elements are
        typedef al::multikey_t<std::vector<int>> key_t;
        std::vector<int> x, y, z;
        for (int n = (int)rnd(0, 4); n-- > 0;) x.push_back((int)rnd(0, 2));
        for (int n = (int)rnd(0, 4); n-- > 0;) y.push_back((int)rnd(0, 2));
        for (int n = (int)rnd(0, 4); n-- > 0;) z.push_back((int)rnd(0, 2));
        key_t a(x), b(y), c(z);
        CHECK((a == b) == (x == y) && (a != b) == (x != y), "multikey equality");
        CHECK((int)(a < b) + (int)(b < a) + (int)(a == b) == 1, "multikey is not total");
        CHECK(!(a < b && b < c) || a < c, "multikey is not transitive");
        CHECK((a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b), "multikey comparisons disagree");
    }
    {   // zip
        std::vector<int> b;
        for (int n = (int)rnd(0, 25); n-- > 0;) b.push_back((int)rnd(0, 99));
        std::vector<int> got, want;
        for (auto & it : al::zip(v, b)) { int p, q; al::tie(p, q) = it; got.push_back(p); got.push_back(q); }
        for (size_t i = 0; i < v.size() && i < b.size(); i++) { want.push_back(v[i]); want.push_back(b[i]); }
        CHECK(got == want, "zip: %zu, expected %zu", got.size(), want.size());
    }
    {   // distinct, contains, sum, count
        std::vector<int> d = al::distinct(v), want;
        for (int x : v) if (std::find(want.begin(), want.end(), x) == want.end()) want.push_back(x);
        CHECK(d == want, "distinct");
        long s = 0;
        for (int x : v) s += x;
        CHECK(al::sum(v.begin(), v.end()) == s, "sum");
        CHECK(al::count(v.begin(), v.end()) == v.size(), "count");
        int x = (int)rnd(0, 7);
        CHECK(al::contains(v, x) == (std::find(v.begin(), v.end(), x) != v.end()), "contains");
    }
    {   // queue_pop and its like give the element that was first
        std::queue<long> q;
        std::stack<long> s;
        std::list<long> l;
        std::deque<long> m;
        int n = (int)rnd(1, 200);
        for (int i = 0; i < n; i++) { long x = (long)g_rng(); q.push(x); s.push(x); l.push_back(x); m.push_back(x); }
        while (!m.empty())
        {
            note("pop of %zu", m.size());
            long a = al::queue_pop(q);
            CHECK(a == m.front(), "queue_pop");
            long b = chance(50)? al::list_pop_front(l) : (l.push_back(0), al::list_pop_back(l), al::list_pop_front(l));
            CHECK(b == m.front(), "list_pop");
            long c = al::stack_pop(s);
            (void)c;
            m.pop_front();
        }
        CHECK(throws([&] { al::queue_pop(q); }) && throws([&] { al::stack_pop(s); }), "pop of an empty one");
    }
    {   // map_get
        std::map<int, int> map, model;
        for (int k = 0; k < 20; k++)
        {
            int key = (int)rnd(0, 8);
            bool created = false, had = model.count(key) > 0;
            note("map_get(%d)", key);
            int & r = al::map_get(map, key, [&] { return key * 5; }, &created);
            if (!had) model[key] = key * 5;
            CHECK(created == !had && r == model[key], "map_get");
            r++; model[key]++;
            CHECK(al::map_insert(map, key + 4, 1) == (model.count(key + 4) == 0), "map_insert");
            model.insert({ key + 4, 1 });
        }
        CHECK(map == model, "the map after map_get");
    }
    {   // join_str
        string_t s = al::join_str(v.begin(), v.end(), _T(", ")), want;
        for (size_t i = 0; i < v.size(); i++) { if (i) want += _T(", "); want += std::to_wstring(v[i]); }
        CHECK(s == want, "join_str: %s", narrow(s).c_str());
    }
    {   // chain_node
        struct item_t { int v; };
        typedef al::chain_node_t<item_t> c_t;
        std::deque<c_t> nodes;
        std::vector<int> model;
        c_t * head = nullptr;
        for (int k = 0; k < 12; k++)
        {
            nodes.emplace_back();
            nodes.back().v = k;
            if (!head || chance(50))
            {
                c_t::append_next(&head, &nodes.back());
                model.insert(model.empty()? model.begin() : model.begin() + 1, k);
            }
            else if (model.size() > 1)
            {
                c_t * r = head->remove_next();
                CHECK(r->v == model[1], "remove_next");
                model.erase(model.begin() + 1);
            }
            std::vector<int> got;
            c_t::each(head, [&](c_t * n) { got.push_back(n->v); });
            CHECK(got == model, "chain of %zu, expected %zu", got.size(), model.size());
        }
    }
}

// ------------------------------------------------------------------ bytes

template<size_t N> static void copy_fixed(const unsigned char * from)
{
    std::vector<unsigned char> a(N + 16, 0xEE), z(N + 16, 0xEE);
    al::quick_copy<N>(a.data() + 8, from);
    CHECK(memcmp(a.data() + 8, from, N) == 0, "quick_copy<%zu>", N);
    std::vector<unsigned char> back(N + 16, 0xEE);
    al::quick_copy<N, true>(back.data() + 8, from);
    CHECK(back == a, "quick_copy<%zu, true>", N);
    al::quick_zero<N>(z.data() + 8);
    for (size_t i = 0; i < N + 16; i++)
    {
        bool in = i >= 8 && i < 8 + N;
        CHECK(in || a[i] == 0xEE, "quick_copy<%zu> wrote outside", N);
        CHECK(z[i] == (in? 0 : 0xEE), "quick_zero<%zu> at %zu", N, i);
    }
}

template<typename T> static void varint_of(T v)
{
    byte_t buffer[16];
    memset(buffer, 0xFF, sizeof(buffer));
    size_t n = al::to_varint<T>(v, buffer), m = 0;
    CHECK(n >= 1 && n <= 10, "to_varint length %zu", n);
    T back = 0;
    try { back = al::from_varint<T>(buffer, &m); }
    catch (...) { bad("from_varint refuses what to_varint wrote for %llu", (unsigned long long)v); }
    CHECK(back == v && m == n, "varint %llu comes back as %llu (%zu bytes of %zu)",
        (unsigned long long)v, (unsigned long long)back, m, n);
}

static void s_bytes()
{
    {
        unsigned char src[64];
        for (auto & b : src) b = (unsigned char)g_rng();
        copy_fixed<1>(src); copy_fixed<2>(src); copy_fixed<3>(src); copy_fixed<4>(src);
        copy_fixed<5>(src); copy_fixed<6>(src); copy_fixed<7>(src); copy_fixed<8>(src);
        copy_fixed<9>(src); copy_fixed<11>(src); copy_fixed<12>(src); copy_fixed<15>(src);
        copy_fixed<16>(src); copy_fixed<20>(src); copy_fixed<24>(src); copy_fixed<31>(src); copy_fixed<33>(src);
    }
    for (int k = 0; k < 60; k++)
    {
        // The copy behaves as memmove does, wherever source and target lie.
        size_t size = (size_t)rnd(0, chance(20)? 300 : 40), room = 700;
        std::vector<unsigned char> a(room), b;
        for (auto & x : a) x = (unsigned char)g_rng();
        b = a;
        size_t src = (size_t)rnd(0, (long)(room - size)), dst;
        if (chance(70)) { long d = (long)src + rnd(-20, 20); dst = d < 0? 0 : d > (long)(room - size)? room - size : (size_t)d; }
        else dst = (size_t)rnd(0, (long)(room - size));
        note("quick_copy(%zu bytes, %zu -> %zu)", size, src, dst);
        al::quick_copy(a.data() + dst, a.data() + src, size);
        memmove(b.data() + dst, b.data() + src, size);
        CHECK(a == b, "quick_copy(%zu bytes, %zu -> %zu)", size, src, dst);
        size_t at = (size_t)rnd(0, (long)(room - size));
        note("quick_zero(%zu bytes at %zu)", size, at);
        al::quick_zero(a.data() + at, size);
        memset(b.data() + at, 0, size);
        CHECK(a == b, "quick_zero(%zu bytes at %zu)", size, at);
        state(size * 1000 + (dst > src? dst - src : src - dst) * 2 + (dst > src));
    }
    {
        // exact buffers: nothing outside may be read either
        size_t size = (size_t)rnd(1, 40);
        unsigned char * p = new unsigned char[size], * q = new unsigned char[size];
        for (size_t i = 0; i < size; i++) p[i] = (unsigned char)g_rng();
        note("quick_copy exact %zu", size);
        al::quick_copy(q, p, size);
        CHECK(memcmp(p, q, size) == 0, "quick_copy of %zu bytes", size);
        al::quick_zero(q, size);
        for (size_t i = 0; i < size; i++) CHECK(q[i] == 0, "quick_zero of %zu bytes", size);
        delete [] p; delete [] q;
    }
    for (int k = 0; k < 30; k++)
    {
        int bits = (int)rnd(0, 64);
        uint64_t v = bits == 64? g_rng() : g_rng() & ((1ull << bits) - 1);
        if (chance(20)) v = bits == 64? ~0ull : (1ull << bits) - 1;
        note("varint of %llu", (unsigned long long)v);
        varint_of<uint32_t>((uint32_t)v);
        varint_of<uint64_t>(v);
        varint_of<uint16_t>((uint16_t)v);
        state(v);
    }
    {
        long values[4];
        for (int t = 0; t < 8; t++)
        {
            long * p = al::incorp(values + 1, t);
            CHECK(al::incorp_p(p) == values + 1 && al::incorp_v<int>((void *)p) == t, "incorp(%d)", t);
            al::incorp_t<long, int> x(values + 2, t);
            CHECK((long *)x == values + 2 && (int)x == t, "incorp_t(%d)", t);
            long * q = p;
            al::set_incorp_p<int>(q, values + 3);
            CHECK(al::incorp_p(q) == values + 3 && al::incorp_v<int>((void *)q) == t, "set_incorp_p(%d)", t);
            al::set_incorp_v<int>(q, 7 - t);
            CHECK(al::incorp_p(q) == values + 3 && al::incorp_v<int>((void *)q) == 7 - t, "set_incorp_v(%d)", t);
        }
    }
}

// ------------------------------------------------------------------ strings

static string_t rstr(int max, const char * alphabet)
{
    string_t s;
    size_t n = strlen(alphabet);
    for (int k = (int)rnd(0, max); k-- > 0;) s += (char_t)alphabet[rnd(0, (long)n - 1)];
    if (chance(5)) s += (char_t)rnd(0x80, 0x4FFF);
    return s;
}
static string_t upper(string_t s) { for (auto & c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static int sign(int x) { return x < 0? -1 : x > 0? 1 : 0; }
static int cmp_of(al::cmp_t c) { return c == al::cmp_t::less? -1 : c == al::cmp_t::greater? 1 : 0; }

static void s_strings()
{
    const char * ab = chance(50)? "aAbB" : "abcXYZ019_ .,\n\t\"\\";
    string_t s = rstr(14, ab), t = rstr(chance(60)? 3 : 14, ab);
    note("\"%s\" and \"%s\"", narrow(s).c_str(), narrow(t).c_str());
    // exact allocations, so that a read past the end is seen
    std::unique_ptr<char_t[]> sp(new char_t[s.size() + 1]), tp(new char_t[t.size() + 1]);
    std::copy(s.c_str(), s.c_str() + s.size() + 1, sp.get());
    std::copy(t.c_str(), t.c_str() + t.size() + 1, tp.get());
    const char_t * a = sp.get(), * b = tp.get();

    auto at = [&](const char_t * p) { return p == nullptr? -1L : (long)(p - a); };
    auto in = [&](size_t p) { return p == string_t::npos? -1L : (long)p; };
    CHECK(al::strlen(a) == s.size(), "strlen");
    CHECK(at(al::strstr(a, b)) == in(s.find(t)), "strstr gives %ld, expected %ld", at(al::strstr(a, b)), in(s.find(t)));
    CHECK(at(al::stristr(a, b)) == in(upper(s).find(upper(t))), "stristr gives %ld, expected %ld", at(al::stristr(a, b)), in(upper(s).find(upper(t))));
    if (!t.empty())
    {
        CHECK(at(al::strchr(a, t[0])) == in(s.find(t[0])), "strchr");
        CHECK(at(al::strichr(a, t[0])) == in(upper(s).find(upper(t)[0])), "strichr");
    }
    CHECK(cmp_of(al::strcmp(a, b)) == sign(s.compare(t)), "strcmp gives %d", cmp_of(al::strcmp(a, b)));
    CHECK(cmp_of(al::stricmp(a, b)) == sign(upper(s).compare(upper(t))), "stricmp gives %d", cmp_of(al::stricmp(a, b)));
    {
        std::unique_ptr<char_t[]> d(new char_t[s.size() + t.size() + 1]);
        char_t * e = al::strcpy(d.get(), a);
        CHECK(string_t(d.get()) == s && e == d.get() + s.size(), "strcpy");
        e = al::strcat(d.get(), b);
        CHECK(string_t(d.get()) == s + t && e == d.get() + s.size() + t.size(), "strcat");
    }
    if (!t.empty())
    {
        string_t r = rstr(4, ab), got = s, want;
        al::string_replace(got, t, r);
        for (size_t p = 0; ;)
        {
            size_t q = s.find(t, p);
            want += s.substr(p, q == string_t::npos? q : q - p);
            if (q == string_t::npos) break;
            want += r;
            p = q + t.size();
        }
        CHECK(got == want, "string_replace gives \"%s\", expected \"%s\"", narrow(got).c_str(), narrow(want).c_str());
    }
    {
        static const char_t pre[] = _T("aAb");
        CHECK(al::starts_with(a, pre) == (s.compare(0, 3, pre) == 0) , "starts_with");
        CHECK(al::equals(a, pre) == (s == pre), "equals");
    }
    {
        // An escaped string shows every character again.
        string_t e = al::escape_string(s), back;
        for (size_t i = 0; i < e.size(); i++)
        {
            if (e[i] != '\\') { back += e[i]; continue; }
            char_t c = e[++i];
            back += c == 'n'? '\n' : c == 't'? '\t' : c == 'r'? '\r' : c;
        }
        CHECK(back == s, "escape_string gives \"%s\"", narrow(e).c_str());
        bool clean = true;
        for (size_t i = 0; i < e.size(); i++)
            if (e[i] == '\n' || e[i] == '\t' || (e[i] == '"' && (i == 0 || e[i - 1] != '\\'))) clean = false;
        CHECK(clean, "escape_string leaves a control character or a quote");
    }
    for (int k = 0; k < 20; k++)
    {
        char_t c = (char_t)rnd(0, chance(80)? 127 : 70000);
        bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
        CHECK(al::is_upper(c) == up && al::is_lower(c) == lo && al::is_letter(c) == (up || lo), "letters of %d", (int)c);
        CHECK(al::is_digit(c) == dg && al::is_word(c) == (up || lo || dg || c == '_'), "digits of %d", (int)c);
        int v = dg? c - '0' : c >= 'a' && c <= 'f'? c - 'a' + 10 : c >= 'A' && c <= 'F'? c - 'A' + 10 : -1;
        CHECK(al::digit_value(c) == v && al::is_xdigit(c) == (v >= 0), "digit value of %d", (int)c);
        CHECK(al::is_odigit(c) == (v >= 0 && v < 8 && dg) && al::is_bdigit(c) == (c == '0' || c == '1'), "octal and binary of %d", (int)c);
        for (int radix : { 2, 8, 10, 16 }) CHECK(al::is_digit(c, radix) == (v >= 0 && v < radix), "is_digit(%d, %d)", (int)c, radix);
        CHECK(al::to_upper(c) == (lo? c - 32 : c) && al::to_lower(c) == (up? c + 32 : c), "case of %d", (int)c);
        CHECK(al::is_whitespace(c) == (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == 0), "whitespace %d", (int)c);
        state((uint64_t)c);
    }
    {
        al::spool_t pool;
        al::sid_t x = pool.to_sid(s), y = pool.to_sid(t), z = pool.to_sid(string_t(s));
        CHECK((x == z) && ((x == y) == (s == t)), "string pool");
        CHECK(string_t(x) == s && x.length() == s.size(), "string of a sid");
    }
    {
        // UTF-8 and back
        std::string u8 = string_convert<char_t, char>(s);
        CHECK((string_convert<char, char_t>(u8)) == s, "string_convert of \"%s\"", narrow(s).c_str());
    }
}

// ------------------------------------------------------------------ numbers

static std::string radix_text(uint64_t v, int radix)
{
    std::string s;
    do { s += "0123456789abcdef"[v % (uint64_t)radix]; v /= (uint64_t)radix; } while (v);
    std::reverse(s.begin(), s.end());
    return s;
}

static void s_numbers()
{
    int bits = (int)rnd(0, 64);
    uint64_t v = bits == 64? g_rng() : g_rng() & ((1ull << bits) - 1);
    if (chance(25))
    {
        static const uint64_t edge[] = { 0, 1, 7, 8, 9, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7FFFFFFF,
            0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, ~0ull };
        v = edge[rnd(0, 19)];
    }
    static const int radixes[] = { 10, 10, 16, 8, 2 };
    int radix = radixes[rnd(0, 4)];
    bool neg = radix == 10 && chance(15) && v <= 0x7FFFFFFFFFFFFFFFull;
    std::string digits = radix_text(v, radix), text = radix == 16? "0x" : radix == 2? "0B" : radix == 8? "0" : "";
    if (radix == 10 && chance(20) && digits.size() > 3) digits.insert(digits.size() - 3, "'");
    if (radix == 16 && chance(50)) for (auto & c : digits) c = (char)toupper(c);
    text += digits;
    bool U = !neg && chance(15), L = chance(15);
    if (U) text += chance(50)? "U" : "u";
    if (L) text += chance(50)? "L" : "l";
    if (neg) text = "-" + text;
    note("number %s", text.c_str());
    string_t w = wide(text);
    tvalue_t value;
    auto code = al::try_parse_numeric(w.c_str(), &value);
    CHECK(code == al::parse_numeric_error_code_t::success, "\"%s\" is refused", text.c_str());
    if (neg)
    {
        int64_t want = -(int64_t)v;
        CHECK((int64_t)value == want, "\"%s\" gives %lld", text.c_str(), (long long)(int64_t)value);
    }
    else
    {
        CHECK((uint64_t)value == v, "\"%s\" gives %llu", text.c_str(), (unsigned long long)(uint64_t)value);
        // the type is wide enough, and unsigned where it must be
        size_t size = value.type == value_type_t::int64_ || value.type == value_type_t::uint64_? 8 : 4;
        bool uns = value.type == value_type_t::uint32_ || value.type == value_type_t::uint64_;
        uint64_t max = size == 8? (uns? ~0ull : ~0ull >> 1) : (uns? 0xFFFFFFFFull : 0x7FFFFFFFull);
        CHECK(v <= max, "\"%s\" does not fit its type", text.c_str());
        CHECK(!L || size == 8, "\"%s\" is not long", text.c_str());
        CHECK(!U || uns, "\"%s\" is not unsigned", text.c_str());
    }
    state(v ^ (uint64_t)radix << 58);

    {   // floating point
        char b[64];
        double d = chance(50)? (double)rnd(-1000000, 1000000) / 1000.0 : std::ldexp((double)(g_rng() >> 11), (int)rnd(-120, 60));
        d = std::fabs(d);
        snprintf(b, sizeof(b), chance(40)? "%.17g" : chance(50)? "%.3f" : "%.12e", d);
        bool F = chance(20);
        std::string f = b;
        if (f.find_first_of(".e") == std::string::npos) f += ".0";
        double want = strtod(f.c_str(), nullptr);
        float wantf = strtof(f.c_str(), nullptr);
        if (F) f += "F";
        note("number %s", f.c_str());
        tvalue_t x;
        string_t ws = wide(f);
        auto r = al::try_parse_numeric(ws.c_str(), &x);
        if (!std::isinf(wantf) || !F)
        {
            CHECK(r == al::parse_numeric_error_code_t::success, "\"%s\" is refused", f.c_str());
            if (F) CHECK((float)(double)x == wantf, "\"%s\" gives %.9g", f.c_str(), (double)x);
            else CHECK((double)x == want, "\"%s\" gives %.17g, expected %.17g", f.c_str(), (double)x, want);
        }
    }
    {   // not numbers
        static const char * wrong[] = { "12a", "0xG", "1.2.3", "0b2", "1e5e5", "09", "1UU", "1LL", "1.5U", "--1",
            "12'", "0x1.5", "99999999999999999999", "0xFFFFFFFFFFFFFFFFF", "1.0FF", "18446744073709551616" };
        const char * t = wrong[rnd(0, 15)];
        note("number %s", t);
        string_t ws = wide(t);
        tvalue_t x;
        CHECK(al::try_parse_numeric(ws.c_str(), &x) != al::parse_numeric_error_code_t::success, "\"%s\" is accepted", t);
        CHECK(throws([&] { al::parse_numeric(ws.c_str()); }), "\"%s\" is accepted", t);
    }
    {   // a number ends where it ends
        std::string t2 = std::to_string(rnd(0, 99999)) + ";rest";
        string_t ws = wide(t2);
        std::unique_ptr<char_t[]> exact(new char_t[t2.find(';')]);
        std::copy(ws.c_str(), ws.c_str() + t2.find(';'), exact.get());
        auto p = al::cptr(exact.get(), t2.find(';'));
        const char_t * p0 = p;
        note("number %s", t2.c_str());
        tvalue_t x = al::parse_numeric(p);
        CHECK((int64_t)x == atoll(t2.c_str()), "\"%s\"", t2.c_str());
        CHECK((const char_t *)p - p0 == (long)t2.find(';'), "the number's end");
    }
}

// ------------------------------------------------------------------ files and paths

static void s_files()
{
    std::string name = "f" + std::to_string(getpid());
    lib::path_t path(name);
    int n = (int)rnd(0, chance(20)? 5000 : 40);
    std::basic_string<byte_t> bytes, more;
    for (int i = 0; i < n; i++) bytes += (byte_t)g_rng();
    for (int i = (int)rnd(0, 1100); i-- > 0;) more += (byte_t)g_rng();
    note("file of %d bytes and %zu more", n, more.size());
    lib::write_all_bytes(path, bytes);
    CHECK(lib::read_all_bytes(path) == bytes, "%d bytes written are not read back", n);
    lib::append_all_bytes(path, more);
    CHECK(lib::read_all_bytes(path) == bytes + more, "bytes after an append");
    {
        std::ifstream f(name, std::ios::binary);
        std::string raw((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        CHECK(raw.size() == bytes.size() + more.size(), "file size %zu", raw.size());
    }
    string_t text, text2;
    for (int i = (int)rnd(0, 1500); i-- > 0;) text += (char_t)rnd(32, 126);
    for (int i = (int)rnd(0, 60); i-- > 0;) text2 += (char_t)(chance(10)? '\n' : rnd(32, 126));
    note("text of %zu and %zu", text.size(), text2.size());
    lib::write_all_text(path, text);
    CHECK(lib::read_all_text(path) == text, "text of %zu is not read back", text.size());
    lib::append_all_text(path, text2);
    CHECK(lib::read_all_text(path) == text + text2, "text after an append");
    remove(name.c_str());
    CHECK(throws([&] { lib::read_all_text(path); }) && throws([&] { lib::read_all_bytes(path); }), "reading a missing file");
    state((uint64_t)n * 7 + text.size());

    // paths
    std::vector<std::string> parts, norm;
    bool ok = true;
    for (int k = (int)rnd(1, 6); k-- > 0;)
    {
        int c = (int)rnd(0, 9);
        parts.push_back(c == 0? "." : c == 1 && !norm.empty()? ".." : std::string(1, (char)('a' + rnd(0, 3))) + (chance(30)? ".x" : ""));
        if (parts.back() == "..") { norm.pop_back(); }
        else if (parts.back() != ".") norm.push_back(parts.back());
    }
    std::string p, q;
    for (auto & s : parts) p += "/" + s;
    for (auto & s : norm) q += "/" + s;
    if (q.empty()) q = "/";
    note("path %s", p.c_str());
    if (ok)
    {
        std::string got = lib::make_absolute(lib::path_t(p)).string();
        while (got.size() > 1 && got.back() == '/') got.pop_back();
        if (got.empty()) got = "/";
        CHECK(got == q, "make_absolute(%s) gives %s, expected %s", p.c_str(), got.c_str(), q.c_str());
    }
    {
        std::string last = std::string(1, (char)('a' + rnd(0, 3))) + (chance(60)? ".cs" : "");
        std::string dir = "d" + std::to_string(rnd(0, 9)), full = dir + "/" + last;
        lib::path_t fp(full);
        CHECK(lib::filename(fp) == wide(last), "filename(%s)", full.c_str());
        bool ext = last.size() > 1;
        CHECK(lib::fileext(fp) == (ext? _T("cs") : _T("")), "fileext(%s)", full.c_str());
        CHECK(lib::parent(fp) == wide(dir), "parent(%s)", full.c_str());
        CHECK(lib::truncate_fileext(fp) == wide(dir + "/" + last.substr(0, 1)), "truncate_fileext(%s)", full.c_str());
        string_t c = lib::path_combine(wide(dir + (chance(50)? "/" : "")), wide((chance(50)? "/" : "") + last));
        CHECK(c == wide(full), "path_combine gives %s", narrow(c).c_str());
        CHECK(lib::path_add_extension(wide(dir), wide(chance(50)? ".apl" : "apl")) == wide(dir + ".apl"), "path_add_extension");
    }
}

// ------------------------------------------------------------------

} }

using namespace X_ROOT_NS::harness;

int main(int argc, char ** argv)
{
    static const std::map<std::string, void (*)()> sections {
        { "heap", s_heap }, { "heap_addr", s_heap_addr }, { "xheap", s_xheap }, { "svector", s_svector },
        { "tree", s_tree }, { "small", s_small }, { "algo", s_algo }, { "bytes", s_bytes },
        { "strings", s_strings }, { "numbers", s_numbers }, { "files", s_files },
    };
    if (argc < 4 || !sections.count(argv[1])) { fprintf(stderr, "usage\n"); return 2; }
    g_section = argv[1];
    long seed = atol(argv[2]), count = atol(argv[3]), only = argc > 4? atol(argv[4]) : -1;
    auto f = sections.at(argv[1]);
    for (g_history = 0; g_history < count; g_history++)
    {
        if (only >= 0 && g_history != only) continue;
        g_rng.seed((unsigned long)seed * 1000003 + (unsigned long)g_history);
        g_trace.clear();
        try { f(); }
        catch (std::exception & e) { bad("exception %s", e.what()); }
        catch (...) { bad("an exception nobody expects"); }
    }
    ::printf("OK section=%s histories=%ld ops=%ld states=%zu\n", g_section, count, g_ops, g_states.size());
    return 0;
}
