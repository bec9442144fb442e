// Instantiates the header-only part of the public API so that it is present in
// the analysed module.  Not executed.
#include "scs.h"
using namespace atg_scs;
template class atg_scs::SparseMatrix<3, 2>;
template class atg_scs::SparseMatrix<3, 1>;
template class atg_scs::SparseMatrix<2, 2>;
template <class T> static void use(T f) { volatile auto v = f; (void)v; }
void scs_driver() {
    use(&RigidBodySystem::getRigidBodyCount);
    use(&RigidBodySystem::getConstraintCount);
    use(&RigidBodySystem::getForceGeneratorCount);
    use(&RigidBodySystem::state);
    use(static_cast<double (Matrix::*)(int, int)>(&Matrix::get));
    use(static_cast<void (Matrix::*)(int, int, double)>(&Matrix::set));
    use(static_cast<void (Matrix::*)(int, int, double)>(&Matrix::add));
    use(&Matrix::getWidth);
    use(&Matrix::getHeight);
    use(&Matrix::fastRowSwap);
    use(&Constraint::getConstraintCount);
    use(&SleSolver::supportsLimits);
}

// What the operations of a block-sparse matrix S do, said of the dense matrix it stands
// for.  Used in place of the real operations where a caller of them is analysed (that the
// real ones do this is decided separately, by C21).  Not executed.
namespace contract {
void rightScale(Matrix *S, int w, int h, Matrix &W, Matrix *T) {
    for (int i = 0; i < h; ++i)
        for (int q = 0; q < w; ++q) T->set(q, i, S->get(q, i) * W.get(0, q));
}
void leftScale(Matrix *S, int w, int h, Matrix &W, Matrix *T) {
    for (int i = 0; i < h; ++i)
        for (int q = 0; q < w; ++q) T->set(q, i, S->get(q, i) * W.get(0, i));
}
void multiply(Matrix *S, int w, int h, Matrix &b, Matrix *T) {
    T->resize(b.getWidth(), h);
    for (int i = 0; i < h; ++i)
        for (int j = 0; j < b.getWidth(); ++j) {
            double v = 0;
            for (int q = 0; q < w; ++q) v += S->get(q, i) * b.get(j, q);
            T->set(j, i, v);
        }
}
void multiplyTranspose(Matrix *S, int w, int h, Matrix *B, int hb, Matrix *T) {
    T->resize(hb, h);
    for (int i = 0; i < h; ++i)
        for (int j = 0; j < hb; ++j) {
            double v = 0;
            for (int q = 0; q < w; ++q) v += S->get(q, i) * B->get(q, j);
            T->set(j, i, v);
        }
}
void transposeMultiplyVector(Matrix *S, int w, int h, Matrix &b, Matrix *T) {
    T->resize(1, w);
    for (int q = 0; q < w; ++q) {
        double v = 0;
        for (int i = 0; i < h; ++i) v += S->get(q, i) * b.get(0, i);
        T->set(0, q, v);
    }
}
}
