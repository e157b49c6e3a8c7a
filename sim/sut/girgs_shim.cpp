#include "api.h"
#include <iterator>
#include <cstddef>
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <girgs/IntSort.h>
#include "sort_variants.h"

int girgs_cli_main(int, char**);
namespace {
struct TreeBase { virtual ~TreeBase() {} virtual void run(int seed) = 0; };
template <unsigned D> struct TreeD : TreeBase {
    girgs::SpatialTree<D, EdgeCb> t;
    TreeD(const Vec& w, const Mat& p, double a, EdgeCb& cb, bool prof) : t(girgs::makeSpatialTree<D>(w, p, a, cb, prof)) {}
    void run(int seed) { t.generateEdges(seed); }
};
void* tree_new(int dim, const Vec& w, const Mat& p, double a, EdgeCb* cb, bool prof) {
    switch (dim) {
        case 1: return static_cast<TreeBase*>(new TreeD<1>(w, p, a, *cb, prof));
        case 2: return static_cast<TreeBase*>(new TreeD<2>(w, p, a, *cb, prof));
        case 3: return static_cast<TreeBase*>(new TreeD<3>(w, p, a, *cb, prof));
        case 4: return static_cast<TreeBase*>(new TreeD<4>(w, p, a, *cb, prof));
        case 5: return static_cast<TreeBase*>(new TreeD<5>(w, p, a, *cb, prof));
        default: return nullptr;
    }
}
void tree_run(void* t, int seed) { static_cast<TreeBase*>(t)->run(seed); }
void tree_free(void* t) { delete static_cast<TreeBase*>(t); }
void nested(int threads, void (*fn)(void*, int), void* ctx) {
    #pragma omp parallel num_threads(threads)
    fn(ctx, omp_get_thread_num());
}
} // namespace
extern "C" __attribute__((visibility("default"))) void sut_girgs_api(GirgApi* a) {
    a->generateWeights = girgs::generateWeights;
    a->generatePositions = girgs::generatePositions;
    a->scaleWeights = girgs::scaleWeights;
    a->generateEdges = girgs::generateEdges;
    a->saveDot = girgs::saveDot;
    a->treeNew = tree_new; a->treeRun = tree_run; a->treeFree = tree_free;
    a->sort = sort_variant;
    a->cli = girgs_cli_main;
    a->nested = nested;
}
