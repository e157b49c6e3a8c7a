#include "api.h"
#include <iterator>
#include <cstddef>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
#include <hypergirgs/IntSort.h>
#include "sort_variants.h"

int hyper_cli_main(int, char**);
namespace {
typedef hypergirgs::HyperbolicTree<EdgeCb> Tree;
void* tree_new(const Vec& r, const Vec& a, double T, double R, EdgeCb* cb, bool prof) {
    return new Tree(r, a, T, R, *cb, prof);
}
void tree_run(void* t, int seed) { static_cast<Tree*>(t)->generate(seed); }
void tree_free(void* t) { delete static_cast<Tree*>(t); }
} // namespace
extern "C" __attribute__((visibility("default"))) void sut_hyper_api(HyperApi* a) {
    a->calculateRadius = hypergirgs::calculateRadius;
    a->calculateRadiusNK = hypergirgs::calculateRadiusLikeNetworKit;
    a->sampleRadii = hypergirgs::sampleRadii;
    a->sampleAngles = hypergirgs::sampleAngles;
    a->sampleBoth = hypergirgs::sampleRadiiAndAngles;
    a->generateEdges = hypergirgs::generateEdges;
    a->treeNew = tree_new; a->treeRun = tree_run; a->treeFree = tree_free;
    a->sort = sort_variant;
    a->cli = hyper_cli_main;
}
