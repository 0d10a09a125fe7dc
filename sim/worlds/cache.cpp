// P12: the object cache against a reference model, over histories of operations with failing allocations.
#include <rt/sim.h>
#include <trajopt_common/cache.h>
#include <string>
#include <deque>
#include <set>
#include <new>

namespace
{
struct Obj
{
  static int next;
  int id;
  long payload = -1;
  Obj() : id(next++) {}
};
int Obj::next = 0;

// what the cache must do, by objects: an object is free, handed out (acquired on a miss, not stored yet) or stored
template <class K, class Eq>
struct Model
{
  std::vector<std::pair<K, Obj*>> lru;  // front = most recently used
  std::set<Obj*> out;                   // handed out
  std::set<Obj*> seen;                  // every object ever handed out
  std::size_t capacity = 0;
  int find(const K& k) const
  {
    for (std::size_t i = 0; i < lru.size(); ++i)
      if (Eq{}(lru[i].first, k))
        return (int)i;
    return -1;
  }
  int findObj(const Obj* o) const
  {
    for (std::size_t i = 0; i < lru.size(); ++i)
      if (lru[i].second == o)
        return (int)i;
    return -1;
  }
  void touch(int i)
  {
    auto e = lru[(std::size_t)i];
    lru.erase(lru.begin() + i);
    lru.insert(lru.begin(), e);
  }
};

template <class K, class H, class Eq>
void history(K (*mk)(uint64_t))
{
  using C = trajopt_common::Cache<K, Obj, H, Eq>;
  using Ptr = typename C::Ptr;
  const std::size_t cap = (std::size_t)sim::choose(6, "capacity");
  C cache(cap);
  Model<K, Eq> m;
  m.capacity = cap == 0 ? 1 : cap;
  if (cache.capacity() != m.capacity || cache.size() != 0)
    sim::fail("cache-capacity", "a new cache of capacity %zu reports capacity %zu and %zu entries", m.capacity, cache.capacity(), cache.size());
  std::vector<Ptr> held;  // pointers the user keeps
  const uint64_t nkeys = 1 + sim::choose(10, "keys");
  const int nops = 2 + (int)sim::logchoose(120, "ops");
  const bool allocFaults = sim::chance(1, 3, "alloc-faults");
  bool weak = false;  // after a failed allocation only safety is checked
  long stamp = 0;
  std::set<long> evictedStamps;

  auto verify = [&](const char* when, const K* except) {
    // from least to most recently used: the recency order is the same afterwards
    for (std::size_t i = m.lru.size(); i-- > 0;)
    {
      const K k = m.lru[i].first;
      if (except && Eq{}(k, *except))
        continue;
      Ptr p = cache.get(k);
      if (!p)
        sim::fail("cache-lost", "%s: a stored key is no longer found", when);
      if (p.get() != m.lru[i].second)
        sim::fail("cache-wrong-object", "%s: a key yields object %d, it was stored as object %d", when, p->id, m.lru[i].second->id);
    }
  };

  for (int op = 0; op < nops; ++op)
  {
    const K k = mk(sim::choose(nkeys, "key"));
    const int idx = m.find(k);
    const int what = (int)sim::choose(8, "op");
    long failIn = -1;
    if (allocFaults && sim::chance(1, 6, "alloc-fault"))
      failIn = (long)sim::choose(6, "alloc-fail-at");
    const std::size_t capBefore = cache.capacity();
    try
    {
      if (what == 0)
      {
        Ptr p = cache.get(k);
        if (weak)
          continue;
        if ((idx >= 0) != (p != nullptr))
          sim::fail("cache-get", "get of a key that is %s returns %s", idx >= 0 ? "stored" : "not stored", p ? "an object" : "nothing");
        if (p && p.get() != m.lru[(std::size_t)idx].second)
          sim::fail("cache-wrong-object", "get returns object %d, the key was stored with object %d", p->id, m.lru[(std::size_t)idx].second->id);
        if (p)
        {
          m.touch(idx);
          held.push_back(p);
        }
        sim::event(idx >= 0 ? 1u : 2u);
      }
      else if (what <= 4)
      {
        sim::alloc_fail_in(failIn);
        auto r = cache.getOrAcquire(k);
        sim::alloc_fail_in(-1);
        if (!r.first)
          sim::fail("cache-acquire-null", "getOrAcquire returns no object although no allocation failed");
        Obj* o = r.first.get();
        if (weak)
        {
          // safety only: an object handed out on a miss is under no key
          if (!r.second)
            for (uint64_t j = 0; j < nkeys; ++j)
              if (cache.get(mk(j)).get() == o)
                sim::fail("cache-alias", "an object handed out on a miss is still stored under a key");
          continue;
        }
        if (r.second != (idx >= 0))
          sim::fail("cache-hit-flag", "getOrAcquire reports a %s for a key that is %s", r.second ? "hit" : "miss", idx >= 0 ? "stored" : "not stored");
        if (r.second)
        {
          if (o != m.lru[(std::size_t)idx].second)
            sim::fail("cache-wrong-object", "getOrAcquire returns object %d, the key was stored with object %d", o->id, m.lru[(std::size_t)idx].second->id);
          m.touch(idx);
          sim::event(3);
        }
        else
        {
          if (m.out.count(o))
            sim::fail("cache-double-handout", "object %d is handed out twice before being stored", o->id);
          const std::size_t freeN = m.capacity - m.lru.size() - m.out.size();
          const int oi = m.findObj(o);
          if (freeN > 0)
          {
            if (oi >= 0)
              sim::fail("cache-early-eviction", "a stored object is taken away although %zu of %zu objects are unused", freeN, m.capacity);
          }
          else if (!m.lru.empty())
          {
            if (oi != (int)m.lru.size() - 1)
              sim::fail("cache-not-lru", "a full cache gives out %s instead of the least recently used entry", oi < 0 ? "another object" : "a more recently used entry");
            evictedStamps.insert(o->payload);
            m.lru.pop_back();
            sim::cover("cache_evictions");
          }
          else
          {
            if (m.seen.count(o))
              sim::fail("cache-double-handout", "every object is handed out, yet object %d is handed out again", o->id);
            m.capacity = cache.capacity();
            if (m.capacity <= capBefore)
              sim::fail("cache-capacity", "the cache grew, its capacity did not");
            sim::cover("cache_growths");
          }
          m.out.insert(o);
          m.seen.insert(o);
          sim::event(4);
          // fill it and store it, or keep it for later
          if (!sim::chance(1, 4, "keep"))
          {
            o->payload = ++stamp;
            sim::alloc_fail_in(failIn);
            const bool ok = cache.put(k, r.first);
            sim::alloc_fail_in(-1);
            if (!ok)
              sim::fail("cache-put", "put of an acquired object is refused");
            m.out.erase(o);
            m.lru.insert(m.lru.begin(), { k, o });
          }
          else
            held.push_back(r.first);
        }
      }
      else if (what <= 6)
      {
        if (held.empty())
          continue;
        Ptr p = held[(std::size_t)sim::choose(held.size(), "held")];
        sim::alloc_fail_in(failIn);
        const bool ok = cache.put(k, p);
        sim::alloc_fail_in(-1);
        if (!ok)
          sim::fail("cache-put", "put of an object of this cache is refused");
        if (weak)
        {
          if (cache.get(k) != p)
            sim::fail("cache-put", "a key does not yield the object just stored under it");
          continue;
        }
        // the key's previous entry and the object's previous key go
        if (idx >= 0)
          m.lru.erase(m.lru.begin() + idx);
        const int oi = m.findObj(p.get());
        if (oi >= 0)
          m.lru.erase(m.lru.begin() + oi);
        m.out.erase(p.get());
        m.lru.insert(m.lru.begin(), { k, p.get() });
        sim::event(5);
        sim::cover("cache_reputs");
      }
      else
      {
        sim::alloc_fail_in(failIn);
        cache.erase(k);
        sim::alloc_fail_in(-1);
        if (weak)
          continue;
        if (idx >= 0)
          m.lru.erase(m.lru.begin() + idx);
        if (cache.get(k))
          sim::fail("cache-erase", "an erased key is still found");
        sim::event(6);
      }
    }
    catch (const std::bad_alloc&)
    {
      sim::alloc_fail_in(-1);
      sim::cover("fault.alloc_failure");
      if (!weak)
      {
        // the entry being stored (or the one evicted for it) may be lost; every other key keeps its object
        std::size_t lost = 0;
        for (std::size_t i = m.lru.size(); i-- > 0;)
        {
          if (Eq{}(m.lru[i].first, k))
            continue;
          Ptr p = cache.get(m.lru[i].first);
          if (!p)
            ++lost;
          else if (p.get() != m.lru[i].second)
            sim::fail("cache-wrong-object", "after a failed allocation a key yields object %d, it was stored as object %d", p->id, m.lru[i].second->id);
        }
        if (lost > 1)
          sim::fail("cache-lost", "a failed allocation loses %zu entries", lost);
      }
      weak = true;
      sim::nontrivial();
      continue;
    }
    if (weak)
      continue;
    if (cache.size() != m.lru.size())
      sim::fail("cache-size", "the cache reports %zu entries, %zu are stored", cache.size(), m.lru.size());
    if (cache.capacity() != m.capacity)
      sim::fail("cache-capacity", "the capacity changed from %zu to %zu without need", m.capacity, cache.capacity());
    if (sim::chance(1, 8, "verify"))
      verify("after an operation", nullptr);
    for (auto& e : m.lru)
      sim::event((uint64_t)e.second->id);
  }
  if (!weak)
  {
    verify("at the end", nullptr);
    // and the eviction order: acquire until everything stored is gone
    while (!m.lru.empty())
    {
      const std::size_t freeN = m.capacity - m.lru.size() - m.out.size();
      auto r = cache.getOrAcquire(mk(100 + m.out.size()));
      if (r.second || !r.first)
        sim::fail("cache-acquire-null", "no object for a new key");
      Obj* o = r.first.get();
      if (m.out.count(o))
        sim::fail("cache-double-handout", "object %d is handed out twice before being stored", o->id);
      const int oi = m.findObj(o);
      if (freeN > 0)
      {
        if (oi >= 0)
          sim::fail("cache-early-eviction", "a stored object is taken away although %zu objects are unused", freeN);
      }
      else
      {
        if (oi != (int)m.lru.size() - 1)
          sim::fail("cache-not-lru", "a full cache does not give out its least recently used entry");
        m.lru.pop_back();
      }
      m.out.insert(o);
    }
    if (stamp > 2)
      sim::nontrivial();
  }
}
uint64_t ident(uint64_t k) { return k; }
// equal keys that are not identical
uint64_t alias(uint64_t k)
{
  static uint64_t n = 0;
  return k + 1000 * (n++ % 3);
}
std::string str(uint64_t k) { return "key-with-a-long-enough-name-" + std::to_string(k); }
struct OneBucket
{
  std::size_t operator()(uint64_t k) const { return k & 1; }
};
struct ModHash
{
  std::size_t operator()(uint64_t k) const { return k % 1000; }
};
struct ModEq
{
  bool operator()(uint64_t a, uint64_t b) const { return a % 1000 == b % 1000; }
};
}  // namespace

SIM_WORLD(cache)
{
  sim::set_uafcheck(true);
  switch (sim::choose(4, "kind"))
  {
    case 0: history<uint64_t, std::hash<uint64_t>, std::equal_to<uint64_t>>(ident); break;
    case 1: history<std::string, std::hash<std::string>, std::equal_to<std::string>>(str); break;
    case 2: history<uint64_t, OneBucket, std::equal_to<uint64_t>>(ident); break;
    default: history<uint64_t, ModHash, ModEq>(alias); break;
  }
}
