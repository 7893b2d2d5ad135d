From 5a428aef2a236b18161046d4eccc0a5bbc2c31b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:29 +0000
Subject: [PATCH 01/31] fix: TensorAddMultOnJ advances along x (it used x[0]
 for every j)

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..be29674 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -658,7 +658,7 @@ void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M
       {
          dx = x.HostRead();
          tdata = tensor.GetData(k) + i;
-         for (int j = 0; j < tensor.SizeJ(); j++)
+         for (int j = 0; j < tensor.SizeJ(); j++, dx++)
          {
             (*dM) += (*tdata) * (*dx);
             tdata += stride;
-- 
2.43.0


From 387ce65370acd2414baf612be3ff0963a1df8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:16 +0000
Subject: [PATCH 02/31] fix: convection Jacobian and fast evaluation honour the
 prescribed velocity

---
 src/hyperreduction_integ.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..90a91ea 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      // the given velocity does not depend on the solution.
+      if (vQ) { continue; }
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +440,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +456,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   // the given velocity does not depend on the solution.
+   if (vQ) { return; }
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +490,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +521,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -515,7 +533,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    gradEF *= w;
 
    ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   if (vQ)
+      ELV = 0.0;
+   else
+      Mult(gradEF, *shape1, ELV);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From 2d4c9576dba779a10173a0655924d1d97688351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:16 +0000
Subject: [PATCH 03/31] fix: Lax-Friedrichs flux gradient of a fluid at rest is
 zero, not NaN

---
 src/interfaceinteg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..08dea52 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1383,6 +1383,10 @@ void DGLaxFriedrichsFluxIntegrator::ComputeGradFluxDotN(
    Vector du(u1);
    du.Add(-1.0, u2);
 
+   // both states at rest: the flux is quadratic, its gradient is zero.
+   if (un == 0.0)
+      return;
+
    if (u1_lg_u2)
       AddMult_a_VWt(normag / u1mag, du, u1, gradu1);
    else
-- 
2.43.0


From 4f5ed9ef4bd25bcfb85421ecafff529a309728f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:16 +0000
Subject: [PATCH 04/31] fix: fast Lax-Friedrichs gradient uses the sampled
 face, not a stale member, to tell interior from boundary

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index 08dea52..00cfee8 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1830,7 +1830,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From 86308ebd4c15497fcf52c09888b010a1a3f6f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:16 +0000
Subject: [PATCH 05/31] fix: interface integrators keep the integration rule
 given to their constructor

---
 include/interfaceinteg.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/interfaceinteg.hpp b/include/interfaceinteg.hpp
index 4f25137..b26493f 100644
--- a/include/interfaceinteg.hpp
+++ b/include/interfaceinteg.hpp
@@ -15,8 +15,10 @@ namespace mfem
 class InterfaceNonlinearFormIntegrator : virtual public HyperReductionIntegrator
 {
 protected:
+   // HyperReductionIntegrator is a virtual base: the most derived class initializes it,
+   // so the integration rule has to be set here.
    InterfaceNonlinearFormIntegrator(const IntegrationRule *ir = NULL)
-      : HyperReductionIntegrator(ir) {}
+      : HyperReductionIntegrator(ir) { IntRule = ir; }
 public:
    // FaceElementTransformations belongs to one mesh (having mesh pointer).
    // In order to extract element/transformation from each mesh,
-- 
2.43.0


From 4c9c5605ba8276b445043d76ab9ff85aa872d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:42 +0000
Subject: [PATCH 06/31] fix: submesh interfaces keep the face parametrisation
 of the first side, so its normal is taken at the right point

---
 src/topology_handler.cpp | 46 +++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/topology_handler.cpp b/src/topology_handler.cpp
index 3f5670a..f175abe 100644
--- a/src/topology_handler.cpp
+++ b/src/topology_handler.cpp
@@ -423,25 +423,37 @@ Array<int> SubMeshTopologyHandler::FindParentInterfaceInfo(const int pface,
                                                             const int imesh, const int ibe,
                                                             const int jmesh, const int jbe)
 {
+   // Face of each submesh is a boundary face: its own transformation (thus the normal vector) is kept for imesh,
+   // and only the orientation of jmesh is determined, with respect to the face of imesh.
    Array<int> Infs(2);
-   Mesh::FaceInformation face_info = pmesh->GetFaceInformation(pface);
-                  
-   int face_inf[2];
-   pmesh->GetFaceInfos(pface, &face_inf[0], &face_inf[1]);
-   int eli, eli_info;
-   meshes[imesh]->GetBdrElementAdjacentElement(ibe, eli, eli_info);
-   eli = (*parent_elem_map[imesh])[eli];
-   int elj, elj_info;
-   meshes[jmesh]->GetBdrElementAdjacentElement(jbe, elj, elj_info);
-   elj = (*parent_elem_map[jmesh])[elj];
-
-   if (eli == face_info.element[0].index) {
-      Infs[0] = face_inf[0];
-      Infs[1] = face_inf[1];
-   } else {
-      Infs[0] = face_inf[1];
-      Infs[1] = face_inf[0];
+   int dump;
+   const int facei = meshes[imesh]->GetBdrFace(ibe);
+   const int facej = meshes[jmesh]->GetBdrFace(jbe);
+   meshes[imesh]->GetFaceInfos(facei, &Infs[0], &dump);
+   meshes[jmesh]->GetFaceInfos(facej, &Infs[1], &dump);
+
+   Array<int> vtxi, vtxj;
+   meshes[imesh]->GetFaceVertices(facei, vtxi);
+   meshes[jmesh]->GetFaceVertices(facej, vtxj);
+   for (int v = 0; v < vtxi.Size(); v++) vtxi[v] = meshes[imesh]->GetParentVertexIDMap()[vtxi[v]];
+   for (int v = 0; v < vtxj.Size(); v++) vtxj[v] = meshes[jmesh]->GetParentVertexIDMap()[vtxj[v]];
+   assert(vtxi.Size() == vtxj.Size());
+
+   // these members of Mesh are protected.
+   struct FaceOrientation : public Mesh
+   {
+      using Mesh::GetTriOrientation;
+      using Mesh::GetQuadOrientation;
+   };
+
+   int orij = 0;
+   switch (vtxi.Size())
+   {
+      case 2: { orij = (vtxi[0] == vtxj[0]) ? 0 : 1; break; }
+      case 3: { orij = FaceOrientation::GetTriOrientation(vtxi.Read(), vtxj.Read()); break; }
+      case 4: { orij = FaceOrientation::GetQuadOrientation(vtxi.Read(), vtxj.Read()); break; }
    }
+   Infs[1] = 64 * (Infs[1] / 64) + orij;
 
    return Infs;
 }
-- 
2.43.0


From 8c3ff279fa4ecd9d006e8865817679da467d7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:36 +0000
Subject: [PATCH 07/31] fix: boundary Lax-Friedrichs load does not apply the
 surface measure twice, evaluates its weight on the face

---
 src/dg_linear.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_linear.cpp b/src/dg_linear.cpp
index afafd48..46c364f 100644
--- a/src/dg_linear.cpp
+++ b/src/dg_linear.cpp
@@ -377,9 +377,10 @@ void DGBdrLaxFriedrichsLFIntegrator::AssembleRHSElementVect(
       gn.Set(0.5 * un, Qvec);
       gn.Add(- abs(un), Qvec);
 
-      w = ip.weight * Tr.Face->Weight();
+      // nor is already scaled by the surface measure.
+      w = ip.weight;
       if (Z)
-         w *= Z->Eval(*(Tr.Face), eip);
+         w *= Z->Eval(*(Tr.Face), ip);
 
       // Need to check the signs.
       AddMult_a_VWt(w, shape, gn, ELV);
-- 
2.43.0


From 4d3bc21c94fc8f35ffa72da0c1d1f21509a9327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:36 +0000
Subject: [PATCH 08/31] fix: Temam boundary load on boundary elements uses the
 dimension of the domain

---
 src/dg_linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_linear.cpp b/src/dg_linear.cpp
index 46c364f..5a3c7ac 100644
--- a/src/dg_linear.cpp
+++ b/src/dg_linear.cpp
@@ -492,7 +492,7 @@ void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
 void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
    const FiniteElement &el, ElementTransformation &Tr, Vector &elvect)
 {
-   int dim = el.GetDim();
+   int dim = el.GetDim()+1;
    int dof = el.GetDof();
    Vector nor(dim), Qvec, gn(dim);
    double un;
-- 
2.43.0


From 3281d61f035756b33a32d15a5f7e485a8a899c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:22 +0000
Subject: [PATCH 09/31] fix: BlockSmoother::SetOperator takes the blocks of the
 new operator

The inverses of the diagonal blocks and the block layout were those of the
operator given at construction (or none at all, with the default constructor).
---
 src/block_smoother.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..c77da12 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -48,6 +48,21 @@ void BlockSmoother::SetOperator(const Operator &a)
    }
    height = oper->Height();
    width = oper->Width();
+
+   num_row_blocks = oper->NumRowBlocks();
+   num_col_blocks = oper->NumColBlocks();
+   assert(num_row_blocks == num_col_blocks);
+   oper->RowOffsets().Copy(row_offsets);
+   oper->ColOffsets().Copy(col_offsets);
+
+   DeletePointers(diag_inv);
+   diag_inv.SetSize(num_row_blocks);
+   diag_inv = NULL;
+   for (int b = 0; b < num_row_blocks; b++)
+   {
+      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
+      diag_inv[b]->Invert();
+   }
 }
 
 void BlockSmoother::PrintOperator()
-- 
2.43.0


From ed526050d1c83d75ddb024031ec096db57ef6141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:19 +0000
Subject: [PATCH 10/31] fix: reading a sparse matrix without entries yields a
 finalized matrix

There were no data arrays to hand over, so the matrix was left unfinalized
and its first use dereferenced a null pointer.
---
 src/hdf5_utils.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..7c17b40 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -195,14 +195,24 @@ SparseMatrix* ReadSparseMatrix(hid_t &source, std::string matrix_name)
    assert(j_read.Size() == i_read[size[0]]);
    assert(data_read.Size() == i_read[size[0]]);
 
-   // Need to transfer the ownership to avoid segfault or double-free.
-   int *ip, *jp;
-   double *vp;
-   i_read.StealData(&ip);
-   j_read.StealData(&jp);
-   data_read.StealData(&vp);
-
-   SparseMatrix *mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
+   SparseMatrix *mat = NULL;
+   if (data_read.Size() == 0)
+   {
+      // There are no data arrays to transfer: a matrix built on them would not be finalized.
+      mat = new SparseMatrix(size[0], size[1]);
+      mat->Finalize();
+   }
+   else
+   {
+      // Need to transfer the ownership to avoid segfault or double-free.
+      int *ip, *jp;
+      double *vp;
+      i_read.StealData(&ip);
+      j_read.StealData(&jp);
+      data_read.StealData(&vp);
+
+      mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
+   }
 
    errf = H5Gclose(grp_id);
    assert(errf >= 0);
-- 
2.43.0


From f8021adf87e2efeb8ae39d037ced368dbe68fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:02 +0000
Subject: [PATCH 11/31] fix: a forced option without a key replaced the whole
 configuration

---
 src/input_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 17a57f7..476eed1 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -81,7 +81,7 @@ void InputParser::OverwriteOption(const std::string &forced_input)
    {
       std::stringstream kvss(kv);
       success = true;
-      success = success && (std::getline(kvss, key, '='));
+      success = success && (std::getline(kvss, key, '=')) && !key.empty();
       success = success && (std::getline(kvss, val, '='));
       success = success && (!std::getline(kvss, dummy, '='));
       if (!success)
-- 
2.43.0


From b5fe4dc86db389e452a0c3f4bb93007b0d5753a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 12/31] fix: elasticity problems left their number of
 parameters uninitialised

---
 src/parameterized_problem.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..9d07253 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1047,7 +1047,8 @@ LinElastDisp::LinElastDisp()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1086,7 +1087,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1142,7 +1144,8 @@ LinElastDispLattice::LinElastDispLattice()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1199,7 +1202,8 @@ LinElastForceCantilever::LinElastForceCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_force::rforce_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1259,7 +1263,8 @@ LinElastFrameWind::LinElastFrameWind()
    param_map["density"] = 3;
    param_map["g"] = 4;
 
-   param_ptr.SetSize(5);
+   param_num = 5;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_problem::_lambda);
    param_ptr[1] = &(function_factory::linelast_problem::_mu);
    param_ptr[2] = &(function_factory::linelast_frame_wind::qwind_f);
@@ -1452,7 +1457,8 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_map["bx"] = 38;
    param_map["by"] = 39;
 
-   param_ptr.SetSize(40);
+   param_num = 40;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_cwtrain::l_ux);
    param_ptr[1] = &(function_factory::linelast_cwtrain::l_uy);
    param_ptr[2] = &(function_factory::linelast_cwtrain::r_fx);
-- 
2.43.0


From f985f2f74e32fdf2253056ae03c7c5dcc33074bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 13/31] fix: component-wise elasticity training left disabled
 components of displacements and forces unset

---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 9d07253..410f828 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -382,6 +382,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -390,6 +391,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -398,6 +400,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -406,6 +409,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -414,6 +418,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From b54f5578e8bd5ffc85807379a8409e9a721bc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:23 +0000
Subject: [PATCH 14/31] fix: the unloaded boundary of the wind-loaded frame was
 listed under the attribute of another one

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 410f828..83f0ee0 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1246,7 +1246,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From b2d96830a46f1a813c1a307d41fff787c4d7db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 15/31] fix: reduced convection Jacobian wrote into a caller's
 released element vector

VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast resized the
member ELV, which still referred to the external data of the last element
vector.
---
 src/hyperreduction_integ.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 90a91ea..3a68ccd 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -532,15 +532,16 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
       gradEF.Add(x(k), *((*gradEFs)[k]));
    gradEF *= w;
 
-   ELV.SetSize(dim, nbasis);
+   // NOTE: the member ELV may still refer to the external data of the last element vector.
+   DenseMatrix elv(dim, nbasis);
    if (vQ)
-      ELV = 0.0;
+      elv = 0.0;
    else
-      Mult(gradEF, *shape1, ELV);
+      Mult(gradEF, *shape1, elv);
 
    for (int k = 0; k < nbasis; k++)
    {
-      ELV.GetColumnReference(k, vec2);
+      elv.GetColumnReference(k, vec2);
       (*gradEFs)[k]->AddMult(vec1, vec2, w);
    }
 
@@ -548,7 +549,7 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    for (int k = 0; k < nbasis; k++)
    {
       jac.GetColumnReference(k, jac_col);
-      ELV.GetColumnReference(k, vec2);
+      elv.GetColumnReference(k, vec2);
       shape1->AddMultTranspose(vec2, jac_col);
    }
 }
-- 
2.43.0


From bf093716ae1ec0647ef35bf2dc3e149f3f7eb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 16/31] fix: SaveDomainEQPCoords stored an uninitialised third
 coordinate in 2D

---
 src/rom_nonlinearform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_nonlinearform.cpp b/src/rom_nonlinearform.cpp
index 9b7bf00..4378108 100644
--- a/src/rom_nonlinearform.cpp
+++ b/src/rom_nonlinearform.cpp
@@ -1541,7 +1541,7 @@ void ROMNonlinearForm::SaveDomainEQPCoords(const int k, hid_t file_id, const std
       ElementTransformation *T = fes->GetElementTransformation(el);
       const IntegrationPoint &ip = ir->IntPoint(eqp_sample->info.qp);
 
-      double x[3];
+      double x[3] = {0.0, 0.0, 0.0};
       Vector transip(x, 3);
       T->Transform(ip, transip);
 
-- 
2.43.0


From 1f971da540b63dc61739984d7f21f0772c2872c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:07 +0000
Subject: [PATCH 17/31] fix: precomputed interface samples ignored the offset
 of the component basis

---
 include/rom_interfaceform.hpp |  3 ++-
 src/rom_interfaceform.cpp     | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/rom_interfaceform.hpp b/include/rom_interfaceform.hpp
index 4193c71..180dca0 100644
--- a/include/rom_interfaceform.hpp
+++ b/include/rom_interfaceform.hpp
@@ -141,7 +141,8 @@ private:
    void PrecomputeEQPSample(const IntegrationRule &ir,
                             FaceElementTransformations *tr1, FaceElementTransformations *tr2,
                             FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-                            const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample);
+                            const DenseMatrix &basis1, const DenseMatrix &basis2,
+                            const int basis1_offset, const int basis2_offset, EQPSample &eqp_sample);
 };
 
 } // namespace mfem
diff --git a/src/rom_interfaceform.cpp b/src/rom_interfaceform.cpp
index 13e5dca..ddd060b 100644
--- a/src/rom_interfaceform.cpp
+++ b/src/rom_interfaceform.cpp
@@ -813,8 +813,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
             const int itf = sample->info.el;
             topol_handler->GetInterfaceTransformations(mesh1, mesh2, &(*interface_infos)[itf], tr1, tr2);
 
-            PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2,
-                                *basis1, *basis2, *sample);
+            PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2, *basis1, *basis2,
+                                comp_basis_dof_offsets[c1], comp_basis_dof_offsets[c2], *sample);
          }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
          if (c1 == c2)
@@ -826,7 +826,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
 void ROMInterfaceForm::PrecomputeEQPSample(
    const IntegrationRule &ir, FaceElementTransformations *tr1, FaceElementTransformations *tr2,
    FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-   const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample)
+   const DenseMatrix &basis1, const DenseMatrix &basis2,
+   const int basis1_offset, const int basis2_offset, EQPSample &eqp_sample)
 {
    const int nbasis1 = basis1.NumCols();
    const int nbasis2 = basis2.NumCols();
@@ -837,7 +838,11 @@ void ROMInterfaceForm::PrecomputeEQPSample(
    Array<int> vdofs1, vdofs2;
    fes1->GetElementVDofs(tr1->Elem1No, vdofs1);
    fes2->GetElementVDofs(tr2->Elem1No, vdofs2);
-   
+   for (int v = 0; v < vdofs1.Size(); v++)
+      vdofs1[v] += basis1_offset;
+   for (int v = 0; v < vdofs2.Size(); v++)
+      vdofs2[v] += basis2_offset;
+
    int dim = fe1->GetDim();
    int ndofs1 = fe1->GetDof();
    int ndofs2 = fe2->GetDof();
-- 
2.43.0


From 5ebd2206a983167a149a01593494b2acc75aee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 18/31] fix: GetBlockIndex without a variable was refused
 exactly where it is meaningful

---
 src/rom_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..8d727ad 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -199,7 +199,7 @@ const int ROMHandlerBase::GetBlockIndex(const int m, const int v)
 {
    if (v < 0)
    {
-      assert(separate_variable);
+      assert(!separate_variable);
       return m;
    }
 
-- 
2.43.0


From fe78f581357a73878a7514090235e295b2397d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 19/31] fix: projecting an absent block on the reference basis
 dereferenced it

---
 src/rom_handler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 8d727ad..ff386b3 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -720,11 +720,12 @@ SparseMatrix* MFEMROMHandler::ProjectToRefBasis(const int &i, const int &j, cons
    GetReferenceBasis(i, basis_i);
    GetReferenceBasis(j, basis_j);
 
-   assert(basis_i->NumRows() == mat->Height());
-   assert(basis_j->NumRows() == mat->Width());
-
    if (mat)
+   {
+      assert(basis_i->NumRows() == mat->Height());
+      assert(basis_j->NumRows() == mat->Width());
       return mfem::SparseRtAP(*basis_i, *mat, *basis_j);
+   }
    else
       return new SparseMatrix(basis_i->NumCols(), basis_j->NumCols());
 }
-- 
2.43.0


From dd7194165e2067ea7597d6e26a853e740eb4c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 20/31] fix: domain projections ignored the ordering of the
 reduced blocks

---
 src/rom_handler.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index ff386b3..8a4b509 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -814,13 +814,8 @@ void MFEMROMHandler::ProjectComponentToDomainBasis(
 {
    int size = (separate_variable) ? num_var : 1;
    Array<int> idx(size);
-   idx = c;
-   if (separate_variable)
-      for (int v = 0; v < num_var; v++)
-      {
-         idx[v] *= num_var;
-         idx[v] += v;
-      }
+   for (int v = 0; v < size; v++)
+      idx[v] = GetBlockIndex(c, v);
 
    assert((mats.NumRows() == size) && (mats.NumCols() == size));
 
@@ -857,8 +852,8 @@ void MFEMROMHandler::ProjectInterfaceToDomainBasis(
    if (separate_variable)
       for (int v = 0; v < num_var; v++)
       {
-         idx[v] = c1 * num_var + v;
-         idx[v + num_var] = c2 * num_var + v;
+         idx[v] = GetBlockIndex(c1, v);
+         idx[v + num_var] = GetBlockIndex(c2, v);
       }
    else
    {
@@ -880,8 +875,8 @@ void MFEMROMHandler::ProjectVariableToDomainBasis(
    Array<int> idx_i(size), idx_j(size);
    for (int m = 0; m < numSub; m++)
    {
-      idx_i[m] = m * num_var + vi;
-      idx_j[m] = m * num_var + vj;
+      idx_i[m] = GetBlockIndex(m, vi);
+      idx_j[m] = GetBlockIndex(m, vj);
    }
 
    assert((mats.NumRows() == size) && (mats.NumCols() == size));
-- 
2.43.0


From 2c347dd52117738f59f7afca055761be0e634d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 21/31] fix: loading a reduced operator over another one freed
 its matrix twice

---
 src/rom_handler.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 8a4b509..472f830 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -897,16 +897,13 @@ void MFEMROMHandler::ProjectGlobalToDomainBasis(const Array2D<Operator*> &mats,
 void MFEMROMHandler::LoadOperatorFromFile(const std::string filename)
 {
    assert(save_operator == ROMBuildingLevel::GLOBAL);
-   delete romMat;
-   delete romMat_mono;
 
    hid_t file_id;
    herr_t errf = 0;
    file_id = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    assert(file_id >= 0);   
 
-   romMat = hdf5_utils::ReadBlockMatrix(file_id, "ROM_matrix", rom_block_offsets);
-   SetRomMat(romMat);
+   SetRomMat(hdf5_utils::ReadBlockMatrix(file_id, "ROM_matrix", rom_block_offsets));
 
    errf = H5Fclose(file_id);
    assert(errf >= 0);
-- 
2.43.0


From ca67ec2d5c6435201ed3a1b35c1aa91e204d672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 22/31] fix: the reduced block operator kept its old size after
 appending basis vectors

---
 src/rom_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 472f830..46d0ed6 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -1076,6 +1076,12 @@ void MFEMROMHandler::AppendReferenceBasis(const int &idx, const DenseMatrix &mat
    // Reset the block offsets and domain num_basis.
    SetBlockSizes();
 
+   // The reduced operator follows the new block sizes.
+   delete romMat;
+   romMat = new BlockMatrix(rom_block_offsets);
+   romMat->owns_blocks = true;
+   operator_loaded = false;
+
    printf("spatial basis-%d dimension updated: %d x %d\n",
           idx, ref_basis[idx]->NumRows(), ref_basis[idx]->NumCols());
 }
-- 
2.43.0


From f064acdaf007170c3862cbf5914ec4d0fa6f0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:30 +0000
Subject: [PATCH 23/31] fix: no basis tags for the advection-diffusion solver
 with separate variables

---
 src/main_workflow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index cec992a..1dd3328 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -121,6 +121,7 @@ std::vector<BasisTag> GetGlobalBasisTagList(const TopologyHandlerMode &topol_mod
       else if (solver_type == "stokes")      var_list = StokesSolver::GetVariableNames();
       else if (solver_type == "steady-ns")   var_list = SteadyNSSolver::GetVariableNames();
       else if (solver_type == "linelast")   var_list = LinElastSolver::GetVariableNames();
+      else if (solver_type == "adv-diff")   var_list = AdvDiffSolver::GetVariableNames();
       else if (solver_type == "unsteady-ns")   var_list = UnsteadyNSSolver::GetVariableNames();
       else
       {
-- 
2.43.0


From 049f35f828c6a798568907a95f78d3b85e764fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 24/31] fix: apply a problem's boundary type for battr -1 to
 all boundaries and forget the former problem's types

---
 src/multiblock_solver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index d946c71..fe33a9b 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -498,7 +498,13 @@ void MultiBlockSolver::SetParameterizedProblem(ParameterizedProblem *problem)
    for (int b = 0; b < global_bdr_attributes.Size(); b++)
    {
       int idx = problem->battr.Find(global_bdr_attributes[b]);
-      if (idx < 0) continue;
+      /* -1 stands for all boundaries. */
+      if (idx < 0) idx = problem->battr.Find(-1);
+      if (idx < 0)
+      {
+         bdr_type[b] = BoundaryType::NUM_BDR_TYPE;
+         continue;
+      }
 
       bdr_type[b] = problem->bdr_type[idx];
    }
-- 
2.43.0


From 8b27e300118b27e1b29e32ed82f8ff6a974b63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 25/31] fix: linear elasticity forgets the former problem's
 source and boundary functions

---
 src/linelast_solver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..533db98 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -461,6 +461,12 @@ void LinElastSolver::SetParameterizedProblem(ParameterizedProblem *problem)
       mu_c[i] = new FunctionCoefficient(problem->general_scalar_ptr[1]);
    }
 
+   // clean up rhs for parametrized problem.
+   DeletePointers(rhs_coeffs);
+   rhs_coeffs.SetSize(0);
+   // clean up boundary functions for parametrized problem.
+   bdr_coeffs = NULL;
+
    // Set BCs, the switch on BC type is done inside SetupRHSBCOperators
    for (int b = 0; b < problem->battr.Size(); b++)
    {
-- 
2.43.0


From d7388c3417588b775ce38b47d0c0c034cb9fc45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 26/31] fix: linear elasticity imposes Dirichlet conditions on
 the operator also with continuous elements

---
 src/linelast_solver.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index 533db98..09338ef 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -420,22 +420,19 @@ void LinElastSolver::SetupBCOperators()
 void LinElastSolver::SetupDomainBCOperators()
 {
    MFEM_ASSERT(as.Size() == numSub, "BilinearForm bs != numSub.\n");
-   if (full_dg)
+   for (int m = 0; m < numSub; m++)
    {
-      for (int m = 0; m < numSub; m++)
+      for (int b = 0; b < global_bdr_attributes.Size(); b++)
       {
-         for (int b = 0; b < global_bdr_attributes.Size(); b++)
-         {
-            int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
-            if (idx < 0)
-               continue;
-            if (!BCExistsOnBdr(b))
-               continue;
-
-            if (bdr_type[b] == BoundaryType::DIRICHLET)
-               as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
-                  *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
-         }
+         int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
+         if (idx < 0)
+            continue;
+         if (!BCExistsOnBdr(b))
+            continue;
+
+         if (bdr_type[b] == BoundaryType::DIRICHLET)
+            as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
+               *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
       }
    }
 }
-- 
2.43.0


From 561bd13e39cef108264934ebbb6003bce10e4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 27/31] fix: Stokes determines the pressure condition also when
 no boundary has a velocity

---
 src/stokes_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 2ff664a..afdd75a 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1118,6 +1118,7 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
          { AddBCFunction(zero, problem->battr[b]); break; }
       }
    }
+   DeterminePressureDirichlet();
 
    if (problem->vector_rhs_ptr != NULL)
       AddRHSFunction(*(problem->vector_rhs_ptr));
-- 
2.43.0


From ebe06df0b288a2c29a7d55fa8d4458a95ed4b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 28/31] fix: Stokes excludes the zero-velocity boundaries
 themselves from the complementary flux

---
 src/stokes_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index afdd75a..884f32a 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1139,7 +1139,10 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
             if (problem->battr[b] == -1)
             { nz_dbcs = false; break; }
             else
-               nz_dbcs[b] = false;
+            {
+               int idx = global_bdr_attributes.Find(problem->battr[b]);
+               if (idx >= 0) nz_dbcs[idx] = false;
+            }
          }
       }
       SetComplementaryFlux(nz_dbcs);
-- 
2.43.0


From 937cb28c31ea22f1e5dde7a1a751559693b8120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:23 +0000
Subject: [PATCH 29/31] fix: StokesSolver::EnrichSupremizer refuses more
 supremizers than pressure basis vectors

---
 src/stokes_solver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 884f32a..210b9d2 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1329,6 +1329,13 @@ void StokesSolver::EnrichSupremizer()
 
       int num_basis = rom_handler->GetRefNumBasis(m * num_var);
       assert(num_basis == ubasis->NumCols());
+      if (num_ref_supreme[m] > pbasis->NumCols())
+      {
+         printf("Pressure basis number of columns: %d\n", pbasis->NumCols());
+         printf("Number of required supremizers: %d\n", num_ref_supreme[m]);
+         mfem_error("The pressure basis does not have sufficient columns for supremizers!\n");
+      }
+
       supreme = new DenseMatrix(ubasis->NumRows(), num_ref_supreme[m]);
       for (int k = 0; k < num_ref_supreme[m]; k++)
       {
-- 
2.43.0


From 9f8e88c75df821b5ff6a9a69e91d4b21142deb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 30/31] fix: SteadyNSEQPROM read velocity block sizes as if
 blocks were ordered by domain

---
 src/steady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 7a3ae61..e8cef0d 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -263,7 +263,7 @@ SteadyNSEQPROM::SteadyNSEQPROM(
    u_offsets = 0;
    for (int k = 0; k < numSub; k++)
    {
-      u_offsets[k+1] = block_offsets[1 + k * num_var] - block_offsets[k * num_var];
+      u_offsets[k+1] = block_offsets[midxs[k] + 1] - block_offsets[midxs[k]];
    }
    u_offsets.PartialSum();
 
-- 
2.43.0


From cd6f503bf42e3ad3f2493c55eff4490eca724ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:08 +0000
Subject: [PATCH 31/31] fix: assemble the right-hand side at the time of each
 unsteady Navier-Stokes step

Boundary data and sources that depend on time entered the linear part of the
system with their values at the first assembly only, while the convection
fluxes used the current time.
---
 src/unsteady_ns_solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index bda721f..deb8e81 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -244,7 +244,8 @@ void UnsteadyNSSolver::Step(double &time, int step)
    timer.Stop("Step/advect_itf");
    timer.Start("Step/rhs_sort");
 
-   /* Base right-hand side for boundary conditions and forcing */
+   /* Base right-hand side for boundary conditions and forcing at the time set above */
+   AssembleRHS();
    SortByVariables(*RHS, *RHS_step);
 
    timer.Stop("Step/rhs_sort");
@@ -553,7 +554,9 @@ void UnsteadyNSSolver::SolveROM()
       timer.Stop("SolveROM/advect_itf");
       timer.Start("SolveROM/get_rhs");
 
-      /* Base right-hand side for boundary conditions and forcing */
+      /* Base right-hand side for boundary conditions and forcing at the time set above */
+      AssembleRHS();
+      ProjectRHSOnReducedBasis();
       reduced_rhs = *(rom_handler->GetReducedRHS());
 
       timer.Stop("SolveROM/get_rhs");
-- 
2.43.0

