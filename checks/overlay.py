"""MISO is written for a fork of MFEM that is not installed.  This writes copies
of the installed MFEM headers with the declarations the fork adds; they have the
same include guards, so including them first makes them the ones in force.  New
virtual functions go to the end of their class."""
import os
import re
import sys

INC = "/usr/include/mfem/"
# header -> [(class, text added at its end)]
ADD = {
    "fem/fe/fe_base.hpp": [
        ("FiniteElement", """
public:
   // reverse mode of the maps to physical space; what is added to PointMat_bar is the derivative with respect to the nodes of Trans
   void CalcPhysShapeRevDiff(ElementTransformation &Trans, const Vector &shape_bar, DenseMatrix &PointMat_bar) const;
   void CalcVShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &vshape_bar, DenseMatrix &PointMat_bar) const;
   void CalcPhysCurlShapeRevDiff(ElementTransformation &Trans, const DenseMatrix &curl_bar, DenseMatrix &PointMat_bar) const;
"""),
    ],
    "fem/eltrans.hpp": [
        ("IsoparametricTransformation", """
public:
   // reverse mode; each adds to PointMat_bar
   void JacobianRevDiff(const DenseMatrix &jac_bar, DenseMatrix &PointMat_bar)
   {
      EvalJacobian();
      AddMultABt(jac_bar, dshape, PointMat_bar);
   }
   void WeightRevDiff(double weight_bar, DenseMatrix &PointMat_bar)
   {
      const DenseMatrix &J = Jacobian();
      const DenseMatrix &adj = AdjugateJacobian();
      double w = J.Height() == J.Width() ? weight_bar : weight_bar / Weight();
      DenseMatrix jac_bar(J.Height(), J.Width());
      for (int i = 0; i < J.Height(); ++i)
         for (int j = 0; j < J.Width(); ++j)
            jac_bar(i, j) = w * adj(j, i);
      JacobianRevDiff(jac_bar, PointMat_bar);
   }
   void WeightRevDiff(DenseMatrix &PointMat_bar) { WeightRevDiff(1.0, PointMat_bar); }
   void AdjugateJacobianRevDiff(const DenseMatrix &adj_bar, DenseMatrix &PointMat_bar)
   {
      const DenseMatrix J(Jacobian());
      const int n = J.Height();
      MFEM_VERIFY(n == J.Width(), "adjugate of a square Jacobian");
      DenseMatrix jac_bar(n, n);
      if (n == 2)
      {
         jac_bar(0, 0) = adj_bar(1, 1); jac_bar(1, 1) = adj_bar(0, 0);
         jac_bar(0, 1) = -adj_bar(0, 1); jac_bar(1, 0) = -adj_bar(1, 0);
      }
      else if (n == 3)
      {
         for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
            {
               const int r1 = (j + 1) % 3, r2 = (j + 2) % 3, c1 = (i + 1) % 3, c2 = (i + 2) % 3;
               // adj(i, j) = J(r1, c1) J(r2, c2) - J(r1, c2) J(r2, c1)
               const double b = adj_bar(i, j);
               jac_bar(r1, c1) += b * J(r2, c2); jac_bar(r2, c2) += b * J(r1, c1);
               jac_bar(r1, c2) -= b * J(r2, c1); jac_bar(r2, c1) -= b * J(r1, c2);
            }
      }
      JacobianRevDiff(jac_bar, PointMat_bar);
   }
   void InverseJacobianRevDiff(const DenseMatrix &inv_bar, DenseMatrix &PointMat_bar)
   {
      const DenseMatrix inv(InverseJacobian());
      const int n = inv.Height();
      MFEM_VERIFY(n == inv.Width(), "inverse of a square Jacobian");
      DenseMatrix jac_bar(n, n);   // -inv^T inv_bar inv^T
      for (int i = 0; i < n; ++i)
         for (int j = 0; j < n; ++j)
            for (int k = 0; k < n; ++k)
               for (int l = 0; l < n; ++l)
                  jac_bar(i, j) -= inv(k, i) * inv_bar(k, l) * inv(j, l);
      JacobianRevDiff(jac_bar, PointMat_bar);
   }
"""),
    ],
    "fem/coefficient.hpp": [
        ("Coefficient", """
public:
   virtual void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) { }
"""),
        ("FunctionCoefficient", """
protected:
   std::function<void(const Vector &, const double, Vector &)> FunctionRevDiff;
public:
   FunctionCoefficient(std::function<double(const Vector &)> F, std::function<void(const Vector &, const double, Vector &)> dF)
      : Function(std::move(F)), FunctionRevDiff(std::move(dF)) { }
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
"""),
        ("VectorCoefficient", """
public:
   virtual void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) { }
"""),
        ("VectorFunctionCoefficient", """
protected:
   std::function<void(const Vector &, const Vector &, Vector &)> FunctionRevDiff;
public:
   VectorFunctionCoefficient(int dim, std::function<void(const Vector &, Vector &)> F, std::function<void(const Vector &, const Vector &, Vector &)> dF)
      : VectorCoefficient(dim), Function(std::move(F)), Q(nullptr), FunctionRevDiff(std::move(dF)) { }
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
"""),
        ("ProductCoefficient", """
public:
   void EvalRevDiff(const double Q_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
"""),
        ("ScalarVectorProductCoefficient", """
public:
   void EvalRevDiff(const Vector &V_bar, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &PointMat_bar) override;
"""),
    ],
    "fem/nonlininteg.hpp": [
        ("NonlinearFormIntegrator", """
public:
   virtual double GetFaceEnergy(const FiniteElement &, const FiniteElement &, FaceElementTransformations &, const Vector &) { mfem_error("GetFaceEnergy"); return 0.0; }
"""),
    ],
    "fem/linearform.hpp": [
        ("LinearForm", """
public:
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *) { mfem_error("AddInternalBoundaryFaceIntegrator"); }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator *, Array<int> &) { mfem_error("AddInternalBoundaryFaceIntegrator"); }
"""),
    ],
    "fem/nonlinearform.hpp": [
        ("NonlinearForm", """
public:
   void AddDomainIntegrator(NonlinearFormIntegrator *, Array<int> &) { mfem_error("AddDomainIntegrator"); }
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *) { mfem_error("AddInternalBoundaryFaceIntegrator"); }
   void AddInternalBoundaryFaceIntegrator(NonlinearFormIntegrator *, Array<int> &) { mfem_error("AddInternalBoundaryFaceIntegrator"); }
"""),
    ],
}
SUB = {}


def add_to_class(t, cls, text, f):
    m = re.search(r"^class %s\b[^;{]*\{" % cls, t, re.M)
    e = t.find("\n};", m.end()) if m else -1
    if e < 0:
        sys.exit("overlay: no class %s in %s" % (cls, f))
    return t[:e] + "\n" + text.rstrip() + t[e:]


def write(out):
    names = []
    for f in list(ADD) + [f for f in SUB if f not in ADD]:   # in the order of inclusion
        t = open(INC + f).read()
        d = os.path.dirname(f)

        def inc(m):
            q = os.path.normpath(os.path.join(d, m.group(1)))
            return '#include "%s"' % (q if os.path.exists(INC + q) else m.group(1))
        t = re.sub(r'#include "([^"]+)"', inc, t)
        for cls, text in ADD.get(f, []):
            t = add_to_class(t, cls, text, f)
        for a, b in SUB.get(f, []):
            t, n = re.subn(a, b, t, count=1, flags=re.S)
            if n != 1:
                sys.exit("overlay: %s does not have %s" % (f, a))
        p = os.path.join(out, "ov", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
        names.append("ov/" + f)
    with open(os.path.join(out, "mfem.hpp"), "w") as h:
        h.write("#ifndef VERIF_OVERLAY\n#define VERIF_OVERLAY\n#include \"config/config.hpp\"\n")
        h.write("".join('#include "%s"\n' % n for n in names))
        h.write("#include_next <mfem.hpp>\n#include <list>\n#include \"mfem_fork.hpp\"\n#endif\n")


if __name__ == "__main__":
    write(sys.argv[1])
