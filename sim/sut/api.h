// Interface between the simulator and the libraries built from /repo.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

typedef std::vector<double> Vec;
typedef std::vector<std::vector<double>> Mat;
typedef std::vector<std::pair<int, int>> Edges;

struct EdgeCb {
    void (*fn)(void*, int, int, int);
    void* ctx;
    void operator()(int u, int v, int tid) { fn(ctx, u, v, tid); }
};
struct Item { uint64_t key; uint32_t id; };

struct GirgApi {
    Vec (*generateWeights)(int, double, int, bool);
    Mat (*generatePositions)(int, int, int, bool);
    double (*scaleWeights)(Vec&, double, int, double);
    Edges (*generateEdges)(const Vec&, const Mat&, double, int);
    void (*saveDot)(const Vec&, const Mat&, const Edges&, const std::string&);
    void* (*treeNew)(int dim, const Vec&, const Mat&, double alpha, EdgeCb*, bool profile);
    void (*treeRun)(void*, int seed);
    void (*treeFree)(void*);
    bool (*sort)(std::vector<Item>&, int variant, uint64_t maxKey); // false: unknown variant
    int (*cli)(int, char**);
    void (*nested)(int threads, void (*fn)(void*, int), void* ctx);
};
struct HyperApi {
    double (*calculateRadius)(int, double, double, double);
    double (*calculateRadiusNK)(int, double, double, double);
    Vec (*sampleRadii)(int, double, double, int, bool);
    Vec (*sampleAngles)(int, int, bool);
    std::pair<Vec, Vec> (*sampleBoth)(int, double, double, int, bool);
    Edges (*generateEdges)(Vec&, Vec&, double, double, int);
    void* (*treeNew)(const Vec&, const Vec&, double T, double R, EdgeCb*, bool profile);
    void (*treeRun)(void*, int seed);
    void (*treeFree)(void*);
    bool (*sort)(std::vector<Item>&, int variant, uint64_t maxKey);
    int (*cli)(int, char**);
};
