// An independent maximum-flow computation (Dinic), used as an oracle.
#pragma once
#include <cstdint>
#include <queue>
#include <vector>

struct RefFlow
{
    struct E
    {
        int     to;
        int64_t cap;
    };
    std::vector<E>                es;
    std::vector<std::vector<int>> g;
    std::vector<int>              lvl, it;
    explicit RefFlow(int n) : g(static_cast<size_t>(n)) {}
    int add(int a, int b, int64_t c)
    {
        int id = static_cast<int>(es.size());
        g[static_cast<size_t>(a)].push_back(id);
        es.push_back({b, c});
        g[static_cast<size_t>(b)].push_back(id + 1);
        es.push_back({a, 0});
        return id;
    }
    bool bfs(int s, int t)
    {
        lvl.assign(g.size(), -1);
        lvl[static_cast<size_t>(s)] = 0;
        std::queue<int> q;
        q.push(s);
        while (!q.empty()) {
            int v = q.front();
            q.pop();
            for (int id : g[static_cast<size_t>(v)]) {
                auto& e = es[static_cast<size_t>(id)];
                if (e.cap > 0 && lvl[static_cast<size_t>(e.to)] < 0) {
                    lvl[static_cast<size_t>(e.to)] = lvl[static_cast<size_t>(v)] + 1;
                    q.push(e.to);
                }
            }
        }
        return lvl[static_cast<size_t>(t)] >= 0;
    }
    int64_t dfs(int v, int t, int64_t f)
    {
        if (v == t) {
            return f;
        }
        for (int& i = it[static_cast<size_t>(v)];
             i < static_cast<int>(g[static_cast<size_t>(v)].size());
             ++i) {
            int   id = g[static_cast<size_t>(v)][static_cast<size_t>(i)];
            auto& e  = es[static_cast<size_t>(id)];
            if (e.cap > 0
                && lvl[static_cast<size_t>(e.to)] == lvl[static_cast<size_t>(v)] + 1) {
                int64_t d = dfs(e.to, t, f < e.cap ? f : e.cap);
                if (d > 0) {
                    es[static_cast<size_t>(id)].cap -= d;
                    es[static_cast<size_t>(id ^ 1)].cap += d;
                    return d;
                }
            }
        }
        return 0;
    }
    int64_t flow(int s, int t)
    {
        int64_t r = 0;
        while (bfs(s, t)) {
            it.assign(g.size(), 0);
            while (int64_t f = dfs(s, t, INT64_MAX)) {
                r += f;
            }
        }
        return r;
    }
};
