From b65a1ca5f5564edb28c9966105b83c8790ffddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 01/49] fix: LUFactorizer: take fill-in into account in the
 backward substitution

The last column of each row (m_s) was computed from the stencil of the
matrix, although the factorization fills in the entire column profiles.
The elements of U that appear due to fill-in were skipped by solve(),
which silently returned a wrong solution for many sparse matrices, e.g.
for {{2,0,1},{1,2,0},{0,1,2}}.
---
 include/ode_num_int/lu/LUFactorizer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..873ef05 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -84,6 +84,11 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // Factorization fills in column profiles, so m_s has to account for them
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<=c; ++r )
+                    setMax( m_s[r], c );
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From 6a81f9fa63231a6125d3e9d94bf514be2136a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:53 +0000
Subject: [PATCH 02/49] fix: LUFactorizer: setMatrixFast() must not rely on a
 layout of another size

setMatrixFast() accessed the profile of the previous matrix out of bounds
if the new matrix was larger (or no matrix had been set yet), and kept the
old size if the new matrix was smaller. A stencil rejected by setMatrix()
left the factorizer with mutually inconsistent profile and address data.
---
 include/ode_num_int/lu/LUFactorizer.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 873ef05..8349107 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -77,11 +77,17 @@ class LUFactorizer
                 }
 
             // Verify m_p and m_q
+            auto rejectStencil = [this]( const char *reason ) {
+                m_p.clear();
+                m_q.clear();
+                m_s.clear();
+                throw cxx::exception( reason );
+                };
             for( unsigned int i=0; i<n; ++i ) {
                 if( m_p[i] >= n   ||   m_q[i] >= n )
-                    throw cxx::exception("Invalid matrix stencil: the stencil is incomplete");
+                    rejectStencil("Invalid matrix stencil: the stencil is incomplete");
                 if( m_p[i] > i   ||   m_q[i] > i )
-                    throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
+                    rejectStencil("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
             // Factorization fills in column profiles, so m_s has to account for them
@@ -139,17 +145,22 @@ class LUFactorizer
             for( auto it=matrixBegin; it!=matrixEnd; ++it, ++fc )
                 **fc = it->second;
 #else // CTM_MATH_LU_USE_MX_FAST_CACHE
-            auto elementsSet = 0;
+            unsigned int n = 0;
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-                ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                n = std::max( n, std::max( r, c ) + 1 );
+                if (n > size() || !setLU(r, c, it->second)) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
                     }
                 }
+            if (n != size()) {
+                // Fall back to setMatrix because the matrix has become smaller
+                setMatrix(matrixBegin, matrixEnd);
+                return;
+                }
 #endif // CTM_MATH_LU_USE_MX_FAST_CACHE
             m_factorized = false;
             }
-- 
2.43.0


From 79067ec90f7d0a9538af4282ad9e85873e6bb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:54 +0000
Subject: [PATCH 03/49] fix: LUFactorizer: make secantUpdateProportional()
 satisfy the secant condition

The row scaling factor was computed from y[i] instead of the residual
y[i]-(LU*s)[i], such that the updated matrix did not map s to y.
---
 include/ode_num_int/lu/LUFactorizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 8349107..8fe6a52 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -308,7 +308,6 @@ class LUFactorizer
             unsigned int n = m_p.size();
             m_r.resize( n );
             for( unsigned int i=0; i<n; ++i ) {
-                real_type beta = y[i];
                 real_type cl = 0;
                 for( unsigned int k=m_p[i]; k<i; ++k )
                     cl += L(i,k)*m_r[k];
@@ -318,6 +317,7 @@ class LUFactorizer
                     if( i >= m_q[k] )
                         cu += U(i,k)*s[k];
                 real_type c = cl + cu;
+                real_type beta = y[i] - c;
                 if( beta == 0 )
                     // Just compute r[i]
                     m_r[i] = cu;
-- 
2.43.0


From f1250213ee724d98168472c8b3555f500936a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:10 +0000
Subject: [PATCH 04/49] fix: sparse matrix: size of the product of a row vector
 and a matrix

The result has as many elements as the matrix has columns; it was
allocated by the number of rows, and mulVectLeft() wrote past its end
if the matrix had more columns than rows.
---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..43b4fb9 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From fe91c38cfe464dcc019d7a5756bdbc06d9270b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:10 +0000
Subject: [PATCH 05/49] fix: sparse matrix: size of the transposed view

transposed() reported the size of the source matrix, such that using the
view of a non-square matrix failed assertions or accessed memory out of
bounds.
---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 43b4fb9..640d61c 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
-- 
2.43.0


From afb5fca2902097077952e7e0587ecb598dea508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:10 +0000
Subject: [PATCH 06/49] fix: sparse matrix: element access by row and column in
 views

get(r,c) of block and transposed views ignored the view and read element
(r,c) of the source matrix; at(r,c) did not compile.
---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 640d61c..b01ed46 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -359,7 +359,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( sourceIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -567,7 +567,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( transposedIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
-- 
2.43.0


From ee43e6cb204fef04c54f13d29229765a72fa856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:10 +0000
Subject: [PATCH 07/49] fix: fast sparse matrix: copying from another matrix
 type or a view

Element lookup in SparseMatrixFastData requires sorted elements, but the
order of elements was not ensured when copying from a transposed view.
Constructing a fast sparse matrix from a matrix of another type threw an
exception because elements were accessed before they were created.
---
 include/ode_num_int/la/SparseMatrixTemplate.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index b01ed46..46a61c4 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -301,6 +301,13 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             auto end = that.end();
             m_data.resize( std::distance( begin, end ) );
             std::copy( begin, end, m_data.begin() );
+
+            // Element lookup relies on the order of indices, and views do not always preserve the order
+            auto less = []( const data_element_type& l, const data_element_type& r ) {
+                return l.first < r.first;
+                };
+            if( !std::is_sorted( m_data.begin(), m_data.end(), less ) )
+                std::sort( m_data.begin(), m_data.end(), less );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
@@ -845,10 +852,8 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
-            {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) {
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From 33a4e4bbf0202761528bfd44de6af814bdcbe2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:20 +0000
Subject: [PATCH 08/49] fix: VectorNarrowingMapping: narrow the output by the
 disabled output indices

map() removed elements of the output vector by the indices of the
disabled inputs.
---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From 0e3992ad58a121ea671a6c919b82e7dae017b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:20 +0000
Subject: [PATCH 09/49] fix: Broyden descent direction: allow the update to add
 elements to the Jacobian

The update was applied in place to a fast sparse matrix, which throws
"Element is not found" unless the Jacobian happens to be dense.
---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..b9b2ad0 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -56,12 +56,15 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 left *= 1 / dx.euclideanNormSquare();
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                // The update may add elements, which is only possible in a sparse matrix of the general kind
+                sparse::SparseMatrix<real_type> Jnew = J;
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            Jnew.at( i, j ) += x;
                         }
+                J = Jnew;
                 }
             m_xprev = x0;
             m_fprev = f0;
-- 
2.43.0


From 29a41039492960699f525af1530cde83519b574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:20 +0000
Subject: [PATCH 10/49] fix: DefaultJacobianProvider: forget the Jacobian on
 hard reset

Descent directions that only compute the Jacobian when it is empty kept
using the Jacobian of the previous problem after a hard reset: the reset
was useless, and a new problem of another size led to out of bounds access.
---
 include/ode_num_int/alg/DefaultJacobianProvider.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/alg/DefaultJacobianProvider.h b/include/ode_num_int/alg/DefaultJacobianProvider.h
index f48e696..53f9b09 100644
--- a/include/ode_num_int/alg/DefaultJacobianProvider.h
+++ b/include/ode_num_int/alg/DefaultJacobianProvider.h
@@ -19,6 +19,10 @@ class DefaultJacobianProvider :
         typedef typename VD::value_type real_type;
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
+        void hardReset() {
+            m_J = FastSparseMatrix();
+            }
+
         void computeJacobian( const V& x0 )
             {
             if( auto jt = this->jacobianTrimmer() )
-- 
2.43.0


From 4b100fed91d593048e15ceb689f30f5f34c9e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:20 +0000
Subject: [PATCH 11/49] fix: SparseJacobianProvider: do not use a stale
 calculator when the trimmer is removed

While a trimmer is set, the Jacobian matrix is replaced, but the calculator
still holds addresses of its former elements. After removing the trimmer,
the calculator wrote to these addresses, or did not update the Jacobian at
all if the trimmer had been there from the beginning.
---
 include/ode_num_int/alg/SparseJacobianProvider.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..611a7a8 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -21,7 +21,8 @@ class SparseJacobianProvider :
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
         SparseJacobianProvider() :
-            m_Jcalc( &m_J )
+            m_Jcalc( &m_J ),
+            m_JcalcValid( false )
             {}
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
@@ -37,11 +38,14 @@ class SparseJacobianProvider :
 
         void computeJacobian( const V& x0 )
             {
-            if( auto jt = this->jacobianTrimmer() )
+            if( auto jt = this->jacobianTrimmer() ) {
                 m_J = jt->trimJacobian( math::computeJacobian( *this->mapping(), x0 ) );
-            else if( m_J.empty() ) {
+                m_JcalcValid = false;
+                }
+            else if( m_J.empty() || !m_JcalcValid ) {
                 m_J = math::computeJacobian( *this->mapping(), x0 );
                 m_Jcalc = SparseJacobianCalculator<VD>( &m_J );
+                m_JcalcValid = true;
                 }
             else
                 m_Jcalc.calculate( *this->mapping(), x0, 1e-6 );
@@ -54,6 +58,7 @@ class SparseJacobianProvider :
     private:
         FastSparseMatrix m_J;
         SparseJacobianCalculator< VD > m_Jcalc;
+        bool m_JcalcValid;      // False if m_J has been replaced since m_Jcalc was made for it
     };
 
 } // end namespace math
-- 
2.43.0


From d60b97b51c665c5d41087354288e7b6fe41ad104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 12/49] fix: NewtonSolver: keep the Jacobian provider when the
 descent direction is replaced

A descent direction set by setComponent() or the "ddir" parameter had no
Jacobian provider, and the next use of the solver dereferenced a null
pointer.
---
 .../alg/interfaces/NewtonSolverInterface.h       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..de564b4 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -90,6 +90,7 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 ddir->setMapping( itperf->mapping() );
+                inheritJacobianProvider( ddir, itperf );
                 itperf->setNewtonDescentDirection( ddir );
                 }
             auto rs = this->regularizationStrategy();
@@ -187,8 +188,10 @@ class NewtonSolverInterface :
                             parameters, "ddir",
                             [this, itperf]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
                             {
-                            if( ddir )
+                            if( ddir ) {
                                 ddir->setMapping( itperf->mapping() );
+                                inheritJacobianProvider( ddir, itperf );
+                                }
                             itperf->setNewtonDescentDirection( ddir );
                             auto rs = this->regularizationStrategy();
                             if( rs )
@@ -260,6 +263,17 @@ class NewtonSolverInterface :
 
             return result;
             }
+
+    private:
+        // If a new descent direction has no Jacobian provider of its own, it takes over the one in use
+        static void inheritJacobianProvider(
+                const std::shared_ptr< NewtonDescentDirection<VD> >& ddir,
+                const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
+            {
+            auto oldDdir = itperf->newtonDescentDirection();
+            if( oldDdir && !ddir->jacobianProvider() )
+                ddir->setJacobianProvider( oldDdir->jacobianProvider() );
+            }
     };
 
 CTM_DEF_NOTIFIED_PROP_VD_TEMPLATE_CLASS(
-- 
2.43.0


From bca762447d6bc802020db49ff06f1a343ac82a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 13/49] fix: NewtonSolver: report divergence if a hard reset
 cannot help

run() returned IterationCountLimitExceeded if iterations diverged and the
descent direction has nothing to reset.
---
 include/ode_num_int/alg/NewtonSolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..1da6819 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -51,10 +51,12 @@ class NewtonSolver :
             auto ddir = itperf->newtonDescentDirection();
             itperf->reset( false );
             auto hardResetTried = false;
+            auto diverged = false;
             auto x0 = currentSolution();
             auto iterationNumberBias = 0u;
             while( true ) {
                 auto breakLoop = false;
+                diverged = false;
                 auto iterationNumber=0u;
                 for( ; !breakLoop && iterationNumber<m_iterationCountLimit; ++iterationNumber ) {
                     auto status = itperf->iteration( iterationNumber );
@@ -75,6 +77,7 @@ class NewtonSolver :
                             ddir->reportSuccess( false );
                             if( !hardResetTried ) {
                                 breakLoop = true;
+                                diverged = true;
                                 break;
                                 }
                             return BaseClass::Diverged;
@@ -93,7 +96,7 @@ class NewtonSolver :
                     break;
                 }
             ddir->reportSuccess( false );
-            return BaseClass::IterationCountLimitExceeded;
+            return diverged ?   BaseClass::Diverged :   BaseClass::IterationCountLimitExceeded;
             }
 
         const V& currentSolution() const {
-- 
2.43.0


From b288fdd0a196379d399fbbdacca91f4dfa6d6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 14/49] fix: Newton iteration: keep the solution if there is no
 step

If the Jacobian is singular, the descent direction is not finite. The line
search rejects it by returning zero, but zero times infinity is NaN, so the
current solution was lost; such a solution was even reported as converged
if the residual was small before the step.
---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 4f4be14..34ae75a 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -45,7 +45,9 @@ class NewtonIterationPerformerImpl :
             auto ddir = this->newtonDescentDirection();
             auto dir = ddir->computeDescentDirection( m_x, f0, iterationNumber );
             m_currentStepRatio = this->newtonLinearSearch()->lineSearch( dir, m_x, f0, &m_f );
-            m_x += dir.scaled( m_currentStepRatio );
+            if( m_currentStepRatio != 0 )
+                // Otherwise, dir might be not finite, in which case m_x would be spoilt
+                m_x += dir.scaled( m_currentStepRatio );
             this->errorEstimator()->setCurrentSolution( m_x, m_f );
             auto result = this->errorEstimator()->currentStatus();
             if( m_currentStepRatio == 0   &&   result == ErrorEstimator<VD>::ContinueIterations )
-- 
2.43.0


From a4a965ea62c86642d4a042d1f4cad768a0706394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 15/49] fix: VectorTemplate::infNorm() must not ignore NaN
 elements

A vector that contains NaN had a finite maximum norm, in contrast to the
other norms. In particular, the Newton solver reported convergence if the
residual was NaN, and the adaptive ODE solvers accepted steps leading to NaN.
---
 include/ode_num_int/la/VectorTemplate.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/VectorTemplate.h b/include/ode_num_int/la/VectorTemplate.h
index 3d39666..6e60fe6 100644
--- a/include/ode_num_int/la/VectorTemplate.h
+++ b/include/ode_num_int/la/VectorTemplate.h
@@ -399,8 +399,14 @@ class VectorTemplate : public D
         value_type infNorm() const
             {
             value_type result = value_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v ) );
+            for( const auto& v : *this ) {
+                value_type a = std::fabs( v );
+                if( !( a <= result ) ) {
+                    result = a;
+                    if( result != result )
+                        break;  // Not a number
+                    }
+                }
             return result;
             }
 
-- 
2.43.0


From d459b2a83d8b70c4398cca9383aa3f31e04db9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 16/49] fix: simple step size controller: reject steps with NaN
 error norm

---
 include/ode_num_int/ode/OdeStepSizeSimpleController.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index bf30ee9..99ad4e6 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -36,7 +36,8 @@ class OdeStepSizeSimpleController :
             {
             if( errorNorm == 0 )
                 return Result( currentStepSize, true, false );
-            real_type p = std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) );
+            // Note: a step whose error is not a number must be rejected, as if the error were infinite
+            real_type p = errorNorm == errorNorm ? std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) ) : 0;
             real_type pd = p * m_insuranceCoefficient;
             if( p >= 1 ) {
                 if( m_maxThreshold > 0   &&   pd*currentStepSize > m_maxThreshold ) {
-- 
2.43.0


From 77c8485b4504af3708978863ad956e17acf7397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 17/49] fix: Rosenbrock methods: Jacobian with respect to all
 of the velocities

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From cacbe0018e4c60b3339704692164c9d83ec9ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 18/49] fix: Rosenbrock methods: start with the initial step
 size

The step size was zero unless the initial step size had been set explicitly,
and, for SW2_4, a new initial state kept the step size of the previous run.
---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 1 +
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..d7aa307 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -254,6 +254,7 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void cleanupStep() {
             m_k1.resize( 0 );
+            m_h = this->initialStepSize();
             }
 
         void linSolve( V& x ) {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..1de2758 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -162,6 +162,7 @@ class OdeSolverRosenbrock_W1 :
 
         void cleanupStep() {
             m_k1.resize( 0 );
+            m_h = this->initialStepSize();
             }
 
         void linSolve( V& x ) {
-- 
2.43.0


From 007c7f5de116bf59f61ac541e0da3c2e79aa0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 19/49] fix: Rosenbrock SW2_4: update the W matrix when a step
 is repeated with another step size

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index d7aa307..2c63f9c 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -66,18 +66,13 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void doStep()
             {
-            bool needInitStep = true;
-
             while( true ) {
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                if( needInitStep ) {
-                    needInitStep = false;
-                    initStep();
-                    }
+                initStep();
 
                 auto rhs = this->odeRhs();
 
-- 
2.43.0


From bb65db5d106e7033187293ffbfc5eadcc9f1e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 20/49] fix: reset the event controller when the initial state
 is set

Rosenbrock, Gragg, and implicit Euler solvers went on with the event indicators
of the previous state.
---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..ee1b4ff 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -59,6 +59,8 @@ class OdeSolverGragg :
             m_initialTime = initialTime;
             m_initialU = initialState;
             m_stepsRunning = false;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..c5e799c 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -71,6 +71,8 @@ class OdeSolverImplicitEuler :
         void setInitialState( real_type initialTime, const V& initialState, bool soft = false )
             {
             m_mapping4Newton->setInitialState( initialTime, initialState );
+            if( auto ec = this->eventController() )
+                ec->reset();
             if( !soft )
                 m_hardResetRequested = true;
             }
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 2c63f9c..f224b08 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft )
                 // Compute ODE RHS at the beginning of the step
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 1de2758..4546d86 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From 45db7569d72c9320202b8db19380c1132d96cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 21/49] fix: event controller: events at the very beginning or
 end of the step

An event indicator that becomes exactly zero at the end of the step made the
controller write out of bounds; rounding errors in an indicator after an event
made it go back in time.
---
 include/ode_num_int/ode/LinearOdeEventController.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..fde1106 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -75,9 +75,10 @@ class LinearOdeEventController :
                 auto i = m_zfi[ix];
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
-                real_type t = zf1 / ( zf1 - zf2 );
-                ASSERT (t >= 0);
-                if( tmin > t ) {
+                // Note: right after an event, zf1 is zero up to rounding errors and can have any sign
+                real_type t = s( zf1 )*s( zf2 ) > 0   ||   zf1 == zf2 ?   0 :   zf1 / ( zf1 - zf2 );
+                ASSERT( t >= 0   &&   t <= 1 );
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
@@ -93,6 +94,8 @@ class LinearOdeEventController :
             // Switch state
             std::fill( m_transitions.begin(), m_transitions.end(), 0 );
             auto currentTransitionType = s( m_zf2[itmin] );
+            if( currentTransitionType == 0 )
+                currentTransitionType = -m_state[itmin];    // The surface is reached exactly at the step end
             m_transitions[itmin] = currentTransitionType;
             // m_state[itmin] = ( m_zfflags[itmin] & OdeRhs<VD>::BothDirections ) == OdeRhs<VD>::BothDirections ?   m_transitions[itmin] :   0;
             rhs->switchPhaseState( m_transitions.data(), t2, x2 );
-- 
2.43.0


From 6158874b480b821b93bef04eb8fed50271a90798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:43 +0000
Subject: [PATCH 22/49] fix: pass the step size of the step to the observers
 called before it

Before the first step after setting the initial state, explicit Runge-Kutta
methods and the extrapolator passed an uninitialized or stale step size.
---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 2 +-
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 2 +-
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..1ac787a 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,12 +74,12 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
+                initStep();
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..fd759bc 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,12 +49,12 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
+            initStep();
             this->odeSolverPreObservers( m_h, this );
 
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
-            initStep();
 
             auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..dce62bd 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -89,12 +89,12 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
+                initStep();
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs().get();
 
-- 
2.43.0


From a9c50c9c661f3e75abe877ec7e5fabd70758856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 23/49] fix: extrapolator: report the size of the step that has
 been done

The observers called after a step got the size of the next step.
---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index dce62bd..d898f76 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -194,7 +194,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From 16e44183f8d370ecb90518754aa0ac817d965bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 24/49] fix: extrapolator: memory errors with few stages, more
 stages than initially, or no reference solver

With one stage, the error estimate read beyond the end of the table; with more
stages than at the first step, the table was too small.
---
 .../ode_num_int/ode/OdeSolverExtrapolator.h   | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index d898f76..7ededa2 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -8,6 +8,7 @@
 #include "./interfaces/OdeSolverErrorNormCalculator.h"
 #include "./interfaces/OdeSolverStepSizeController.h"
 #include "./interfaces/OdeSolverEventController.h"
+#include <algorithm>
 
 namespace ctm {
 namespace math {
@@ -32,7 +33,9 @@ class OdeSolverExtrapolator :
             OdeSolverErrorNormCalculator<VD>( *this, "inf" ),
             m_symmetric( false ),
             m_disable_error_check( false ),
-            m_max_stages( 4 )
+            m_max_stages( 4 ),
+            m_initialTime( 0 ),
+            m_h( 0 )
             {
             this->onOdeRhsChanged( getSyncOdeRhs() );
             }
@@ -81,7 +84,7 @@ class OdeSolverExtrapolator :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
-            if( !soft )
+            if( !soft   &&   m_referenceSolver )
                 m_referenceSolver->setInitialState( initialTime, initialState, false );
             cleanupStep();
             }
@@ -256,13 +259,15 @@ class OdeSolverExtrapolator :
 
         void initStep()
             {
-            if( !m_T.empty() )
-                return;
-
             if( !m_referenceSolver )
                 throw cxx::exception( "Reference solver is not set" );
             if( !stepSequence() )
                 throw cxx::exception( "Step sequence is not set" );
+            if( m_max_stages < (m_disable_error_check? 1u: 2u) )
+                throw cxx::exception( "Too few extrapolation stages" );
+
+            if( !m_T.empty()   &&   m_T.size() >= std::max( m_max_stages, 2u ) )
+                return;
 
             auto rhs = this->odeRhs();
             auto n = rhs->varCount();
@@ -271,8 +276,9 @@ class OdeSolverExtrapolator :
             ASSERT( m_initialState.size() == n );
 
             // Allocate memory
-            m_h = this->initialStepSize();
-            m_T = VV( computeTsize(), V(n) );
+            if( m_T.empty() )
+                m_h = this->initialStepSize();
+            m_T.assign( std::max( m_max_stages, 2u ), V(n) );
             m_n.resize( m_T.size() );
             }
 
@@ -283,16 +289,6 @@ class OdeSolverExtrapolator :
             m_T.clear();
             }
 
-        unsigned int computeTsize() const
-            {
-            auto ss = stepSequence();
-            ASSERT( ss );
-            ss->reset();
-            for( unsigned int i=0; i+1<m_max_stages; ++i )
-                ss->next();
-            return ss->next();
-            }
-
         void syncOdeRhs()
             {
             if( m_referenceSolver )
-- 
2.43.0


From 31b1085335c8c85e0ad4fe8c73c0ddd4d1c4de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 25/49] fix: ErrorStats: mean square deviation; initialize
 scalar sums

The square of the sum of errors was added to the sum of squares, so that the
result grew with the number of samples.
---
 include/ode_num_int/util/ErrorStats.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 02c9921..86869d8 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -14,7 +14,7 @@ class ErrorStats
     public:
         typedef X value_type;
 
-        ErrorStats() : m_sampleCount( 0 ) {}
+        ErrorStats() : m_errorMax(), m_errorSum(), m_errorSquareSum(), m_sampleCount( 0 ) {}
 
         ErrorStats( const ErrorStats& ) = default;
 
@@ -60,7 +60,7 @@ class ErrorStats
         X errorMeanSqareDev() const
             {
             ASSERT( m_sampleCount > 0 );
-            X result = ( math::sqr( m_errorSum ) + m_errorSquareSum );
+            X result = m_errorSquareSum;
             result *= 1. / m_sampleCount;
             return std::sqrt( result );
             }
-- 
2.43.0


From 00643e9e8ec6f63d50ce518f635a860407fc56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 26/49] fix: OptionalParameters: keep the value of
 floating-point parameters

16 digits are not always enough to restore the number.
---
 include/ode_num_int/infra/OptionalParameters.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..76a25ba 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -7,6 +7,8 @@
 #define _INFRA_OPTIONALPARAMETERS_H_AB0B81B0_CF3E_424f_9766_BA04D388199F_
 
 #include <string>
+#include <cstdlib>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <iomanip>
@@ -83,9 +85,9 @@ class OptionalParameters
                 /// \brief Constructor accepting a double initializer (no nested parameters).
                 Value( double x )
                     {
-                    std::ostringstream s;
-                    s << std::setprecision(16) << x;
-                    m_value = s.str();
+                    m_value = formatDouble( x, 16 );
+                    if( std::strtod( m_value.c_str(), nullptr ) != x )
+                        m_value = formatDouble( x, 17 );
                     }
 
                 /// \brief Constructor accepting a boolean initializer (no nested parameters).
@@ -144,6 +146,13 @@ class OptionalParameters
                 std::shared_ptr<Parameters> m_nestedParameters;
                 TypeRegistryGetter m_typeRegistryGetter;
 
+                static std::string formatDouble( double x, int precision )
+                    {
+                    std::ostringstream s;
+                    s << std::setprecision(precision) << x;
+                    return s.str();
+                    }
+
                 void toType( std::string& dst ) const {
                     dst = m_value;
                     }
-- 
2.43.0


From 83916f5379d205664bcf08dac35549ea762974bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 27/49] fix: OptionalParameters: do not wrap unsigned
 parameters that are out of range

---
 include/ode_num_int/infra/OptionalParameters.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 76a25ba..5b0c298 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -175,7 +175,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoll( m_value );
+                    if( x < 0   ||   x > static_cast<long long>( std::numeric_limits<unsigned int>::max() ) )
+                        throw cxx::exception( std::string("Number is out of range: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From aed35e2455af91109cdfa3ee1fedc7713d597374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 28/49] fix: OptionalParameters: reject paths with empty items

The part of the path from the empty item on was ignored, so that another
parameter was read or written.
---
 include/ode_num_int/infra/OptionalParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 5b0c298..137128a 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -392,7 +392,7 @@ class OptionalParameters
                 if( nd == std::string::npos )
                     nd = formattedPath.size();
                 if( nd == n )
-                    break;
+                    throw cxx::exception( std::string("Invalid path '") + formattedPath + "': empty item" );
                 result.push_back( formattedPath.substr( n, nd-n ) );
                 n = nd + 1;
                 }
-- 
2.43.0


From 13f46d6ac88f915d6f02a1552667302aa943c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 29/49] fix: ComponentConfiguration: forget the value that has
 not been accepted

After an invalid value, the configuration reported that value, and no other
value could be set any more.
---
 include/ode_num_int/infra/ComponentConfiguration.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/infra/ComponentConfiguration.h b/include/ode_num_int/infra/ComponentConfiguration.h
index a210da4..a0228b4 100644
--- a/include/ode_num_int/infra/ComponentConfiguration.h
+++ b/include/ode_num_int/infra/ComponentConfiguration.h
@@ -110,9 +110,10 @@ class ComponentConfiguration
             {
             valuePriv( path ) = value;
 
-            // Always reload auto setting, in particular, to load nested parameters
-            parameterProvider()->setParameters( m_parameters );
+            // Always reload auto setting, in particular, to load nested parameters;
+            // also reload if setting fails, in order not to keep the value that is not set.
             m_parametersKnown = false;
+            parameterProvider()->setParameters( m_parameters );
             }
 
         template< class PathType >
-- 
2.43.0


From f17825fb9e29aafc3e0c531fbdba919f269aa337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 30/49] fix: solveOde: finalize outputs if the solution fails

Otherwise the outputs are lost, and the observers that stay registered refer
to objects that can be destroyed before them.
---
 .../ode_num_int/ode/OdeSolverConfiguration.h  | 44 ++++++++++++-------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..5604dce 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -306,6 +306,14 @@ class OdeSolverOutputOption :
         virtual void afterSolve() = 0;
     };
 
+template< class VD >
+inline void finalizeOdeOutput(
+        const std::vector< OdeSolverOutputOption<VD>* >& outputOptions )
+    {
+    for( auto oo : outputOptions )
+        oo->afterSolve();
+    }
+
 template< class VD >
 inline std::vector< OdeSolverOutputOption<VD>* > initOdeOutput(
         const OdeSolverConfiguration<VD> *config,
@@ -315,24 +323,22 @@ inline std::vector< OdeSolverOutputOption<VD>* > initOdeOutput(
     std::vector< OdeSolverOutputOption<VD>* > outputOptions;
     auto collectOutputOption = [&]( const std::shared_ptr< OdeSolverOutputOption<VD> >& oo ) {
         if( oo ) {
-            outputOptions.push_back( oo.get() );
             oo->beforeFirstStep( config, components );
+            outputOptions.push_back( oo.get() );
             }
         };
-    collectOutputOption( paramProvider->statisticsOutput() );
-    collectOutputOption( paramProvider->stepConsoleOutput() );
-    collectOutputOption( paramProvider->stepFileOutput() );
+    try {
+        collectOutputOption( paramProvider->statisticsOutput() );
+        collectOutputOption( paramProvider->stepConsoleOutput() );
+        collectOutputOption( paramProvider->stepFileOutput() );
+        }
+    catch( ... ) {
+        finalizeOdeOutput( outputOptions );
+        throw;
+        }
     return outputOptions;
     }
 
-template< class VD >
-inline void finalizeOdeOutput(
-        const std::vector< OdeSolverOutputOption<VD>* >& outputOptions )
-    {
-    for( auto oo : outputOptions )
-        oo->afterSolve();
-    }
-
 template< class VD >
 inline void solveOde(
         const OdeSolverConfiguration<VD> *config,
@@ -349,11 +355,17 @@ inline void solveOde(
     auto startTime = solver->initialTime();
     auto endTime = startTime + paramProvider->odeSolverDuration();
     auto currentTime = startTime;
-    do {
-        solver->doStep();
-        currentTime = solver->initialTime();
+    try {
+        do {
+            solver->doStep();
+            currentTime = solver->initialTime();
+            }
+        while( currentTime < endTime );
+        }
+    catch( ... ) {
+        finalizeOdeOutput( outputOptions );
+        throw;
         }
-    while( currentTime < endTime );
     finalizeOdeOutput( outputOptions );
     }
 
-- 
2.43.0


From aac5a73bce5df631d1c684fd9afb6b6cc937aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 31/49] fix: OdeSolverConfiguration: check the initial state in
 all cases

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index 5604dce..c0d981c 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -256,6 +256,8 @@ class OdeSolverConfiguration : public ComponentConfiguration
                     };
 
                 if( auto initState = getInitState() ) {
+                    if( !odeRhs )
+                        throw cxx::exception( "ODE right hand size is not specified" );
                     auto state = initState->initialState();
                     auto requiredStateSize = solver->odeRhs()->varCount();
                     if( state.size() != requiredStateSize )
@@ -264,8 +266,13 @@ class OdeSolverConfiguration : public ComponentConfiguration
                                 cxx::FormatInt(requiredStateSize) + ", passed " + cxx::FormatInt(state.size()) );
                     solver->setInitialState( initState->initialTime(), state );
                     }
-                else
+                else {
+                    if( odeRhs   &&   odeInitState.size() != odeRhs->varCount() )
+                        throw cxx::exception(
+                                std::string("Invalid initial state size: expected ") +
+                                cxx::FormatInt(odeRhs->varCount()) + ", passed " + cxx::FormatInt(odeInitState.size()) );
                     solver->setInitialState( odeInitTime, odeInitState );
+                    }
                 };
 
             configureSolver( s );
-- 
2.43.0


From fcee1b52a673dd4c23b4f59326c155610b3aedbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 32/49] fix: IsIdentifier() accepted some punctuation
 characters

---
 include/ode_num_int/util/lex_idnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/lex_idnum.h b/include/ode_num_int/util/lex_idnum.h
index cb1ce67..aff37cc 100644
--- a/include/ode_num_int/util/lex_idnum.h
+++ b/include/ode_num_int/util/lex_idnum.h
@@ -62,7 +62,7 @@ inline bool IsHexIntegerNumber( const char * ) {
 inline bool IsIdentifier( const char *str ) {
     return std::regex_match(
                 str,
-                std::regex( "^[a-zA-z_][a-zA-z0-9_]*$" ) );
+                std::regex( "^[a-zA-Z_][a-zA-Z0-9_]*$" ) );
     }
 
 /// \brief Returns true if \a str is a real number.
-- 
2.43.0


From d5d79a5f74acf001b5415a0d94d1e3cfb03edad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:05 +0000
Subject: [PATCH 33/49] fix: modp(): signed overflow

---
 include/ode_num_int/util/m_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/m_inline.h b/include/ode_num_int/util/m_inline.h
index c5b5c4b..e51e494 100644
--- a/include/ode_num_int/util/m_inline.h
+++ b/include/ode_num_int/util/m_inline.h
@@ -54,7 +54,7 @@ inline unsigned int modp( int x, unsigned int m ) {
     ASSERT( m );
     unsigned int xx;
     if( x < 0 ) {
-        xx = m - (-x)%m;
+        xx = m - (0u - static_cast<unsigned int>( x ))%m;
         if( xx == m )
             xx = 0;
         }
-- 
2.43.0


From 96b7330a79510d7df9e3c4c8cac9b2ea87716c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 34/49] fix: LUFactorizer: secantUpdateHart() must not spoil
 rows it cannot update

If the step has no component along the elements of a row, the update divided by zero.
---
 include/ode_num_int/lu/LUFactorizer.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 8fe6a52..470ad78 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -278,15 +278,14 @@ class LUFactorizer
                         }
                 auto& ri = m_r[i];
                 ri = 0;
-                if( beta == 0 ) {
-                    // Just compute r[i]
+                if( beta == 0   ||   aa == 0 ) {
+                    // Just compute r[i]; if aa is zero, then no update of the row has any effect on r[i]
                     for( unsigned int k=i; k<=umaxcol; ++k )
                         if( i >= m_q[k] )
                             ri += U(i,k) * s[k];
                     }
                 else {
                     // Update L, U; compute r[i]
-                    ASSERT( aa > 0 );
                     auto factor = beta/aa;
                     for( unsigned int k=m_p[i]; k<i; ++k )
                         L(i,k) += m_r[k] * factor;
-- 
2.43.0


From daa34f90aafcde5c93ecc2b46c4086dd646b1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:07 +0000
Subject: [PATCH 35/49] fix: NewtonSolver: recompute the residual when the
 regularization parameter changes

---
 include/ode_num_int/alg/NewtonSolver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index 1da6819..c0a1764 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -109,7 +109,12 @@ class NewtonSolver :
         bool maybeAdjustRegularizationParameter()
             {
             auto rs = this->regularizationStrategy();
-            return rs ?   rs->adjustRegularizationParameter() :   false;
+            if( !( rs && rs->adjustRegularizationParameter() ) )
+                return false;
+            // The equation has changed, so the residual of the current solution is no longer valid
+            auto x = currentSolution();
+            setInitialGuess( x, false );
+            return true;
             }
     };
 
-- 
2.43.0


From f9125b10fcac3b9dfdd5851c95fd193d05ca1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 36/49] fix: Gragg solver: a step interrupted by an exception
 advanced part of the state

The auxiliary solution and the stored right hand side were modified before the
step was done; a repeated step gave a wrong solution, and, with smoothing, the
state read between the two was wrong too.
---
 include/ode_num_int/ode/OdeSolverGragg.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index ee1b4ff..98d3bcc 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -73,6 +73,7 @@ class OdeSolverGragg :
             {
                 auto nv = m_initialU.size();
                 m_fbuf.resize( nv );
+                m_nextF.resize( nv );
                 m_nextU.resize( nv );
             }
 
@@ -85,16 +86,19 @@ class OdeSolverGragg :
 
             this->tstat0.add( timer.Lap() );
 
-            if( !m_stepsRunning ) {
-                m_initialV = m_initialU;
+            // Note: the state remains as is till the step is done, in case of an exception
+            if( m_stepsRunning )
+                m_nextV = m_initialV;
+            else {
+                m_nextV = m_initialU;
                 rhs->rhs( m_fbuf, m_initialTime, m_initialU );
                 }
-            m_initialV += m_fbuf.scaled( h2 );
-            rhs->rhs( m_fbuf, m_initialTime + h2, m_initialV );
+            m_nextV += m_fbuf.scaled( h2 );
+            rhs->rhs( m_nextF, m_initialTime + h2, m_nextV );
             m_nextU = m_initialU;
-            m_nextU += m_fbuf.scaled( h );
-            rhs->rhs( m_fbuf, m_initialTime + h, m_nextU );
-            m_initialV += m_fbuf.scaled( h2 );
+            m_nextU += m_nextF.scaled( h );
+            rhs->rhs( m_nextF, m_initialTime + h, m_nextU );
+            m_nextV += m_nextF.scaled( h2 );
 
             this->tstat1.add( timer.Lap() );
 
@@ -109,6 +113,8 @@ class OdeSolverGragg :
                 }
             m_initialTime = nextTime;
             m_initialU.swap( m_nextU );
+            m_initialV.swap( m_nextV );
+            m_fbuf.swap( m_nextF );
             m_stepsRunning = !stepTruncated;
 
             this->tstat2.add( timer.Lap() );
@@ -152,7 +158,9 @@ class OdeSolverGragg :
         V m_initialU;
         V m_initialV;
         V m_fbuf;
+        V m_nextF;
         V m_nextU;
+        V m_nextV;
         cxx::bool0 m_stepsRunning;
     };
 
-- 
2.43.0


From 47568d23f62c1118630c684e018b7229df8508f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 37/49] fix: Rosenbrock solvers: repeating the first step after
 an exception used uninitialized data

An exception during the initialization or during the factorization of W left
the solver as if it were initialized.
---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h  | 4 +++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h     | 4 +++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index f224b08..86896a9 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -233,7 +233,6 @@ class OdeSolverRosenbrock_SW2_4 :
                 // Allocate memory
                 m_initialOdeRhs.resize( n );
                 m_nextOdeRhs.resize( n );
-                m_k1.resize( n );
                 m_k2.resize( n );
                 m_k3.resize( n );
                 m_k4.resize( n );
@@ -247,6 +246,9 @@ class OdeSolverRosenbrock_SW2_4 :
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
                 hard, m_initialTime, m_initialState, m_initialOdeRhs, m_h * m_d );
+
+            // Done last, because non-empty m_k1 indicates that everything is initialized
+            m_k1.resize( m_initialState.size() );
             }
 
         void cleanupStep() {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 4546d86..8112c30 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -151,7 +151,6 @@ class OdeSolverRosenbrock_W1 :
 
                 // Allocate memory
                 m_initialOdeRhs.resize( n );
-                m_k1.resize( n );
                 m_nextState.resize( n );
                 }
 
@@ -160,6 +159,9 @@ class OdeSolverRosenbrock_W1 :
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
                 hard, m_initialTime, m_initialState, m_initialOdeRhs, m_h * m_d );
+
+            // Done last, because non-empty m_k1 indicates that everything is initialized
+            m_k1.resize( m_initialState.size() );
             }
 
         void cleanupStep() {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index 5afe60b..86d35c9 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -151,7 +151,7 @@ class OdeSolverRosenbrock_W_base :
             {
             ASSERT( hd != 0 ); // Required for cache to work
             if( m_hd4W != hd ) {
-                m_hd4W = hd;
+                m_hd4W = 0;     // Till W is actually computed
                 auto it = m_W_LU_cache.find( hd );
                 if( it != m_W_LU_cache.end() )
                     m_W_LU = &it->second;
@@ -167,6 +167,7 @@ class OdeSolverRosenbrock_W_base :
                     ASSERT( itbool.second );
                     m_W_LU = &itbool.first->second;
                     }
+                m_hd4W = hd;
                 }
             }
     };
-- 
2.43.0


From 60230eeb054c4f742421ea2593ad206f8fac5917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 38/49] fix: event controller: an exception in zero functions
 at the first step lost the initialization

When repeated, the step used zeros as the values of zero functions at its start.
---
 include/ode_num_int/ode/LinearOdeEventController.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index fde1106..27b36c1 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -39,6 +39,7 @@ class LinearOdeEventController :
                     for (typename V::size_type i=0; i<m_zf1.size(); ++i)
                         m_state[i] = s(m_zf1[i], m_zfflags[i]);
                     }
+                m_clean = false;
                 }
             }
 
@@ -146,7 +147,6 @@ class LinearOdeEventController :
             {
             if( !m_clean )
                 return false;
-            m_clean = false;
             auto rhs = this->odeRhs();
             auto nz = rhs->zeroFuncCount();
             m_haveZf = nz > 0;
-- 
2.43.0


From 7bd15d528d4516556cf593b0e99b156b9eeb4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 39/49] fix: decreasing the size of the specified initial state
 wrote beyond its end

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..0c8b34c 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -55,10 +55,13 @@ class SpecifiedOdeInitState :
         V m_initialState;
 
         void resize( int n ) {
+            if( n < 0 )
+                throw cxx::exception( std::string("Invalid initial state size: ") + cxx::FormatInt(n) );
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From 42836f3b226ddfcc405976b3c8feb3b418402b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 40/49] fix: copies of a parameter value shared its nested
 parameters

---
 .../ode_num_int/infra/OptionalParameters.h    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 137128a..c5343d8 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -62,6 +62,25 @@ class OptionalParameters
                 /// \brief Default constructor. Value is initialized by an empty string; no nested parameters.
                 Value() {}
 
+                /// \brief Copy constructor. Nested parameters, if any, are copied.
+                Value( const Value& that ) :
+                    m_value( that.m_value ),
+                    m_nestedParameters( that.m_nestedParameters ?
+                        std::make_shared< Parameters >( *that.m_nestedParameters ) : std::shared_ptr< Parameters >() ),
+                    m_typeRegistryGetter( that.m_typeRegistryGetter )
+                    {}
+
+                /// \brief Move constructor.
+                Value( Value&& that ) = default;
+
+                /// \brief Assignment operator. Nested parameters, if any, are copied.
+                Value& operator=( const Value& that ) {
+                    return *this = Value( that );
+                    }
+
+                /// \brief Move assignment operator.
+                Value& operator=( Value&& that ) = default;
+
                 /// \brief Constructor.
                 /// \param text Initializer for the field storing the value.
                 /// \param nestedParameters Initializer for the field storing nested parameters.
-- 
2.43.0


From f84197360e1edd89d8dd9b2620c41fa95ac1bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 41/49] fix: look up per-type storage cells safely from several
 threads

The cell map was read and written without synchronization, so the first
accesses of cells (factories, registrators, tick counters) from different
threads raced and could corrupt the map.
---
 include/ode_num_int/infra/PerTypeStorage.h | 31 +++++++++++++++-------
 src/PerTypeStorage.cpp                     |  1 +
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/ode_num_int/infra/PerTypeStorage.h b/include/ode_num_int/infra/PerTypeStorage.h
index 22a649e..5902412 100644
--- a/include/ode_num_int/infra/PerTypeStorage.h
+++ b/include/ode_num_int/infra/PerTypeStorage.h
@@ -9,6 +9,8 @@
 #include <typeinfo>
 #include <string>
 #include <map>
+#include <memory>
+#include <mutex>
 #include "../defs.h"
 
 namespace ctm {
@@ -17,8 +19,8 @@ namespace ctm {
 ///
 /// Storage cells are identified by pairs (T1, T2), where T1 and T2 are types,
 /// and T2 is the data type in the storage cell.
-/// \note This class has a static field, \c m_data,
-/// that has to be defined in a translation unit of one DLL/so module.
+/// \note This class has static fields, \c m_data and \c m_mutex,
+/// that have to be defined in a translation unit of one DLL/so module.
 class PerTypeStorage
     {
     public:
@@ -28,6 +30,8 @@ class PerTypeStorage
         /// \return Reference to storage cell data.
         /// \note When accessed first time, the memory for the storage cell
         /// is allocated and filled with the default-constructed value.
+        /// \note Storage cells can be looked up from different threads; the access
+        /// to the data in a storage cell is not synchronized.
         template< class ClassType, class ValueType >
         static ValueType& value() {
             return value< ValueType >( std::string(typeid(ClassType).name()) + " / " + typeid(ValueType).name() );
@@ -36,15 +40,21 @@ class PerTypeStorage
         template< class ValueType >
         static ValueType& value( const std::string& key )
             {
-            auto& d = data();
-            auto it = d.find( key );
-            if( it == d.end() ) {
-                auto result = new ValueType;
-                d[key] = result;
-                return *result;
+                {
+                std::lock_guard< std::mutex > lock( m_mutex );
+                auto& d = data();
+                auto it = d.find( key );
+                if( it != d.end() )
+                    return *reinterpret_cast<ValueType*>( it->second );
                 }
-            else
-                return *reinterpret_cast<ValueType*>( it->second );
+            // Note: the value is constructed without holding the mutex, because the constructor
+            // might access other storage cells
+            std::unique_ptr< ValueType > fresh( new ValueType );
+            std::lock_guard< std::mutex > lock( m_mutex );
+            void *&cell = data()[key];
+            if( !cell )
+                cell = fresh.release();
+            return *reinterpret_cast<ValueType*>( cell );
             }
 
         typedef std::map< std::string, void* > Data;
@@ -57,6 +67,7 @@ class PerTypeStorage
             }
 
         static ODE_NUMINT_API Data *m_data;
+        static ODE_NUMINT_API std::mutex m_mutex;
     };
 
 } // end namespace ctm
diff --git a/src/PerTypeStorage.cpp b/src/PerTypeStorage.cpp
index f0ab2e4..7612d3e 100644
--- a/src/PerTypeStorage.cpp
+++ b/src/PerTypeStorage.cpp
@@ -5,5 +5,6 @@
 namespace ctm {
 
 ODE_NUMINT_API PerTypeStorage::Data *PerTypeStorage::m_data = nullptr;
+ODE_NUMINT_API std::mutex PerTypeStorage::m_mutex;
 
 } // end namespace ctm
-- 
2.43.0


From 0b176cd658670558c155d008bb00c63263a59f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 42/49] fix: do not keep the iteration performer alive by its
 own observers

The observer set up by the implicit Euler solver held a shared pointer to
the iteration performer in the observer list of that same performer, so
neither was ever released.
---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index c5e799c..6cc6281 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -40,8 +40,10 @@ class OdeSolverImplicitEuler :
                cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
                 if( auto itperf = newton->iterationPerformer() ) {
                     // Forward jacobian refresh observers
-                    auto setupDdir = [this, itperf] {
-                        if( auto ddir = itperf->newtonDescentDirection() )
+                    // Note: a shared pointer must not be captured, because itperf holds the observer
+                    auto itperfPtr = itperf.get();
+                    auto setupDdir = [this, itperfPtr] {
+                        if( auto ddir = itperfPtr->newtonDescentDirection() )
                             cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
                         };
                     itperf->onNewtonDescentDirectionChanged( setupDdir );
-- 
2.43.0


From 13d3f75312d11634c18a7535cbb5ee2f32274112 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:15:49 +0000
Subject: [PATCH 43/49] fix: replacing the iteration performer of a Newton
 solver lost the equation and the components

---
 .../alg/interfaces/NewtonSolverInterface.h    | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index de564b4..d70e163 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -54,9 +54,10 @@ class NewtonSolverInterface :
 
         NewtonSolverInterface<VD>& setComponent( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
             {
+            inheritComponents( itperf, this->iterationPerformer() );
             this->setIterationPerformer( itperf );
             auto rs = this->regularizationStrategy();
-            if( rs ) {
+            if( rs && itperf ) {
                 rs->setErrorEstimator( itperf->errorEstimator() );
                 rs->setNewtonDescentDirection( itperf->newtonDescentDirection() );
                 }
@@ -168,7 +169,9 @@ class NewtonSolverInterface :
             {
             OptionalParameters::maybeSetParameter(
                         parameters, "itperf",
-                        std::bind( &NewtonSolverInterface<VD>::setIterationPerformer, this, std::placeholders::_1 ) );
+                        [this]( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf ) {
+                            this->setComponent( itperf );
+                            } );
             auto itperf = this->iterationPerformer();
             OptionalParameters::maybeSetParameter(
                         parameters, "regularizer",
@@ -265,6 +268,23 @@ class NewtonSolverInterface :
             }
 
     private:
+        // A new iteration performer takes over everything it has not got from the one in use
+        static void inheritComponents(
+                const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf,
+                const std::shared_ptr< NewtonIterationPerformer<VD> >& oldItperf )
+            {
+            if( !itperf || !oldItperf )
+                return;
+            if( !itperf->mapping() )
+                itperf->setMapping( oldItperf->mapping() );
+            if( !itperf->errorEstimator() )
+                itperf->setErrorEstimator( oldItperf->errorEstimator() );
+            if( !itperf->newtonDescentDirection() )
+                itperf->setNewtonDescentDirection( oldItperf->newtonDescentDirection() );
+            if( !itperf->newtonLinearSearch() )
+                itperf->setNewtonLinearSearch( oldItperf->newtonLinearSearch() );
+            }
+
         // If a new descent direction has no Jacobian provider of its own, it takes over the one in use
         static void inheritJacobianProvider(
                 const std::shared_ptr< NewtonDescentDirection<VD> >& ddir,
-- 
2.43.0


From d9f54804bbfee935de2460f7ef2ad675c7e5b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 44/49] fix: report missing solver components instead of
 dereferencing null pointers

---
 .../alg/ConstJacobianNewtonDescentDirection.h |  6 +++--
 ...obianBroydenUpdateNewtonDescentDirection.h |  6 +++--
 ...nFakeBroydenUpdateNewtonDescentDirection.h |  6 +++--
 ...JacobianHartUpdateNewtonDescentDirection.h |  6 +++--
 ...yFakeBroydenUpdateNewtonDescentDirection.h |  6 +++--
 include/ode_num_int/alg/NewtonSolver.h        | 16 +++++++++++++
 .../alg/SimpleNewtonDescentDirection.h        |  6 +++--
 .../alg/interfaces/NewtonSolverInterface.h    | 24 ++++++++++++-------
 .../ode/OdeSolverExplicitEmbeddedRK.h         |  4 ++++
 .../ode_num_int/ode/OdeSolverExtrapolator.h   |  4 ++++
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  |  7 ++++++
 .../ode/OdeSolverRosenbrock_SW2_4.h           |  4 ++++
 .../interfaces/OdeSolverErrorNormCalculator.h |  3 ++-
 13 files changed, 77 insertions(+), 21 deletions(-)

diff --git a/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h b/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h
index e52b54f..a076202 100644
--- a/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/ConstJacobianNewtonDescentDirection.h
@@ -21,7 +21,8 @@ class ConstJacobianNewtonDescentDirection :
 
         void reset( bool hard ) {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                if( auto jp = this->jacobianProvider() )
+                    jp->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             }
@@ -36,7 +37,8 @@ class ConstJacobianNewtonDescentDirection :
             if( !m_lu.isFactorized() ) {
                 this->jacobianRefreshObservers( true );
                 auto jp = this->jacobianProvider();
-                ASSERT( jp );
+                if( !jp )
+                    throw cxx::exception( "Jacobian provider is not set" );
                 auto& J = jp->jacobian();
                 jp->computeJacobian( x0 );
                 m_lu.setMatrix( J );
diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index b9b2ad0..f6a8539 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -29,7 +29,8 @@ class JacobianBroydenUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard )
-                this->jacobianProvider()->hardReset();
+                if( auto jp = this->jacobianProvider() )
+                    jp->hardReset();
             m_havePrev = false;
             }
 
@@ -40,7 +41,8 @@ class JacobianBroydenUpdateNewtonDescentDirection :
         void computeDescentDirection( V& dir, const V& x0, const V& f0, unsigned int /*iterationNumber*/ )
             {
             auto jp = this->jacobianProvider();
-            ASSERT( jp );
+            if( !jp )
+                throw cxx::exception( "Jacobian provider is not set" );
             auto& J = jp->jacobian();
             auto recalcJacobian = J.empty();
             if( recalcJacobian ) {
diff --git a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
index 7b4ed38..d568841 100644
--- a/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h
@@ -25,7 +25,8 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                if( auto jp = this->jacobianProvider() )
+                    jp->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             m_havePrev = false;
@@ -39,7 +40,8 @@ class JacobianFakeBroydenUpdateNewtonDescentDirection :
             {
             m_lu.clearTimingStats();
             auto jp = this->jacobianProvider();
-            ASSERT( jp );
+            if( !jp )
+                throw cxx::exception( "Jacobian provider is not set" );
             auto& J = jp->jacobian();
             auto recalcJacobian = J.empty();
             if( recalcJacobian ) {
diff --git a/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h
index 86e4859..0c3a946 100644
--- a/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianHartUpdateNewtonDescentDirection.h
@@ -28,7 +28,8 @@ class JacobianHartUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                if( auto jp = this->jacobianProvider() )
+                    jp->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             m_havePrev = false;
@@ -45,7 +46,8 @@ class JacobianHartUpdateNewtonDescentDirection :
             if( recalcJacobian ) {
                 this->jacobianRefreshObservers( true );
                 auto jp = this->jacobianProvider();
-                ASSERT( jp );
+                if( !jp )
+                    throw cxx::exception( "Jacobian provider is not set" );
                 auto& J = jp->jacobian();
                 jp->computeJacobian( x0 );
                 m_lu.setMatrix( J );
diff --git a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
index fe29cb2..d74aaf8 100644
--- a/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h
@@ -33,7 +33,8 @@ class JacobianLazyFakeBroydenUpdateNewtonDescentDirection :
         void reset( bool hard )
             {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                if( auto jp = this->jacobianProvider() )
+                    jp->hardReset();
                 m_lu = decltype(m_lu)();
                 m_jacobianAction = RecomputeJacobian;
                 }
@@ -49,7 +50,8 @@ class JacobianLazyFakeBroydenUpdateNewtonDescentDirection :
             m_lastIterationNumber = iterationNumber;
             m_lu.clearTimingStats();
             auto jp = this->jacobianProvider();
-            ASSERT( jp );
+            if( !jp )
+                throw cxx::exception( "Jacobian provider is not set" );
             auto& J = jp->jacobian();
             bool recalcJacobian = iterationNumber == 0   &&   ( J.empty()   ||   m_jacobianAction == RecomputeJacobian );
             if( recalcJacobian ) {
diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0a1764..c95ef77 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -42,11 +42,13 @@ class NewtonSolver :
             }
 
         void setInitialGuess( const V& initialGuess, bool hardReset = true ) {
+            checkComponents();
             this->iterationPerformer()->setInitialGuess( initialGuess, hardReset );
             }
 
         Status run()
             {
+            checkComponents();
             auto itperf = this->iterationPerformer();
             auto ddir = itperf->newtonDescentDirection();
             itperf->reset( false );
@@ -106,6 +108,20 @@ class NewtonSolver :
     private:
         static const unsigned int DefaultIterationCountLimit = 100;
         unsigned int m_iterationCountLimit;
+
+        void checkComponents() const
+            {
+            auto itperf = this->iterationPerformer();
+            if( !itperf )
+                throw cxx::exception( "Iteration performer is not set" );
+            if( !itperf->errorEstimator() )
+                throw cxx::exception( "Error estimator is not set" );
+            if( !itperf->newtonLinearSearch() )
+                throw cxx::exception( "Line search is not set" );
+            if( !itperf->newtonDescentDirection() )
+                throw cxx::exception( "Descent direction is not set" );
+            }
+
         bool maybeAdjustRegularizationParameter()
             {
             auto rs = this->regularizationStrategy();
diff --git a/include/ode_num_int/alg/SimpleNewtonDescentDirection.h b/include/ode_num_int/alg/SimpleNewtonDescentDirection.h
index 9e8cf9f..c5e0c01 100644
--- a/include/ode_num_int/alg/SimpleNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/SimpleNewtonDescentDirection.h
@@ -21,7 +21,8 @@ class SimpleNewtonDescentDirection :
 
         void reset( bool hard ) {
             if( hard ) {
-                this->jacobianProvider()->hardReset();
+                if( auto jp = this->jacobianProvider() )
+                    jp->hardReset();
                 m_lu = decltype(m_lu)();
                 }
             }
@@ -35,7 +36,8 @@ class SimpleNewtonDescentDirection :
             m_lu.clearTimingStats();
             this->jacobianRefreshObservers( true );
             auto jp = this->jacobianProvider();
-            ASSERT( jp );
+            if( !jp )
+                throw cxx::exception( "Jacobian provider is not set" );
             jp->computeJacobian( x0 );
             auto& J = jp->jacobian();
             this->jacobianRefreshObservers( false );
diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index d70e163..245a47e 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -69,8 +69,10 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 itperf->setMapping( eqnRhs );
-                itperf->newtonDescentDirection()->setMapping( eqnRhs );
-                itperf->newtonLinearSearch()->setMapping( eqnRhs );
+                if( auto ddir = itperf->newtonDescentDirection() )
+                    ddir->setMapping( eqnRhs );
+                if( auto lineSearch = itperf->newtonLinearSearch() )
+                    lineSearch->setMapping( eqnRhs );
                 }
             return *this;
             }
@@ -90,8 +92,10 @@ class NewtonSolverInterface :
             {
             auto itperf = this->iterationPerformer();
             if( itperf ) {
-                ddir->setMapping( itperf->mapping() );
-                inheritJacobianProvider( ddir, itperf );
+                if( ddir ) {
+                    ddir->setMapping( itperf->mapping() );
+                    inheritJacobianProvider( ddir, itperf );
+                    }
                 itperf->setNewtonDescentDirection( ddir );
                 }
             auto rs = this->regularizationStrategy();
@@ -114,7 +118,8 @@ class NewtonSolverInterface :
             {
             auto itperf = this->iterationPerformer();
             if( itperf ) {
-                lineSearch->setMapping( itperf->mapping() );
+                if( lineSearch )
+                    lineSearch->setMapping( itperf->mapping() );
                 itperf->setNewtonLinearSearch( lineSearch );
                 }
             return *this;
@@ -156,8 +161,10 @@ class NewtonSolverInterface :
                 auto ddir = itperf->newtonDescentDirection();
                 result["ddir"] = ddir;
                 if( ddir ) {
-                    result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    auto jp = ddir->jacobianProvider();
+                    result["jacobian"] = jp;
+                    if( jp )
+                        result["jtrim"] = jp->jacobianTrimmer();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -216,7 +223,8 @@ class NewtonSolverInterface :
                             parameters, "linsearch",
                             [itperf]( const std::shared_ptr< NewtonLinearSearch<VD> >& lineSearch )
                             {
-                            lineSearch->setMapping( itperf->mapping() );
+                            if( lineSearch )
+                                lineSearch->setMapping( itperf->mapping() );
                             itperf->setNewtonLinearSearch( lineSearch );
                             } );
 
diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 1ac787a..f4e1a43 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -199,6 +199,10 @@ class OdeSolverExplicitEmbeddedRK :
 
         void initStep()
             {
+            if( !( m_disable_error_check   &&   !m_force_error_calc )   &&   !this->errorNormCalculator() )
+                throw cxx::exception( "Error norm calculator is not set" );
+            if( !m_disable_error_check   &&   !this->odeStepSizeController() )
+                throw cxx::exception( "Step size controller is not set" );
             if( !m_output.empty() )
                 return;
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 7ededa2..1ede8f0 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -263,6 +263,10 @@ class OdeSolverExtrapolator :
                 throw cxx::exception( "Reference solver is not set" );
             if( !stepSequence() )
                 throw cxx::exception( "Step sequence is not set" );
+            if( !m_disable_error_check   &&   !this->errorNormCalculator() )
+                throw cxx::exception( "Error norm calculator is not set" );
+            if( !m_disable_error_check   &&   !this->odeStepSizeController() )
+                throw cxx::exception( "Step size controller is not set" );
             if( m_max_stages < (m_disable_error_check? 1u: 2u) )
                 throw cxx::exception( "Too few extrapolation stages" );
 
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 6cc6281..cb93fe5 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -32,6 +32,8 @@ class OdeSolverImplicitEuler :
             {
             auto setupNewtonSolver = [this]() {
                 auto newton = this->newtonSolver();
+                if( !newton )
+                    return;
                 // Set vector mapping for the Newton's solver
                 if( m_reorder )
                     this->newtonSolver()->setComponent( m_reorder );
@@ -81,6 +83,9 @@ class OdeSolverImplicitEuler :
 
         void doStep()
             {
+            if( !this->newtonSolver() )
+                throw cxx::exception( "Algebraic equation solver is not set" );
+
             auto h = this->initialStepSize();
             this->odeSolverPreObservers( h, this );
 
@@ -170,6 +175,8 @@ class OdeSolverImplicitEuler :
             m_reorder = reorder;
             if( m_reorder )
                 m_reorder->setMapping( m_mapping4Newton );
+            if( !this->newtonSolver() )
+                return;
             if( m_reorder )
                 this->newtonSolver()->setComponent( m_reorder );
             else
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 86896a9..fe08fc4 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -221,6 +221,10 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void initStep()
             {
+            if( !m_disable_error_check   &&   !this->errorNormCalculator() )
+                throw cxx::exception( "Error norm calculator is not set" );
+            if( !m_disable_error_check   &&   !this->odeStepSizeController() )
+                throw cxx::exception( "Step size controller is not set" );
             bool hard = m_k1.empty();
 
             if( hard ) {
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 295eb60..7b01e42 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -21,7 +21,8 @@ class OdeSolverErrorNormCalculator :
             OdeSolverComponent<VD>( solver )
             {
             auto updateOdeRhs = [this] {
-                this->errorNormCalculator()->setOdeRhs( this->solver().odeRhs() );
+                if( auto enorm = this->errorNormCalculator() )
+                    enorm->setOdeRhs( this->solver().odeRhs() );
                 };
             this->onErrorNormCalculatorChanged( updateOdeRhs );
             solver.onOdeRhsChanged( updateOdeRhs );
-- 
2.43.0


From 224769477f1690689d2293100a19737c3f4eeceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:39 +0000
Subject: [PATCH 45/49] fix: the implicit step equation kept the right hand
 side values of a replaced system

---
 include/ode_num_int/ode/OdeStepMappingEuler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepMappingEuler.h b/include/ode_num_int/ode/OdeStepMappingEuler.h
index abdda10..2e688f8 100644
--- a/include/ode_num_int/ode/OdeStepMappingEuler.h
+++ b/include/ode_num_int/ode/OdeStepMappingEuler.h
@@ -22,7 +22,11 @@ class OdeStepMappingEuler :
             m_h( 0.1 ),
             m_t0( 0 ),
             m_f0scaledValid( false )
-            {}
+            {
+            this->onOdeRhsChanged_0( [this]() {
+                m_f0scaledValid = false;
+                } );
+            }
 
         // VectorMapping interface
         unsigned int inputSize() const
-- 
2.43.0


From fca8674083c6bb886cdd9e532614ddd2e28cf498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:48 +0000
Subject: [PATCH 46/49] fix: i_euler forwards observations and Newton
 statistics once after its Newton parts are exchanged

---
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  | 65 ++++++++++++++-----
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index cb93fe5..2b3c577 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -30,27 +30,53 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton( std::make_shared< OdeStepMappingEuler<VD> >() ),
             m_hardResetRequested( true )
             {
-            auto setupNewtonSolver = [this]() {
+            // Note: the observers added below remain in the components when those are replaced, and when this
+            // solver is destroyed; the tokens tell them if they still have to do anything.
+            // Pointers to the components are not captured, because the components hold the observers.
+            auto setupDdir = [this]() {
+                m_ddirToken = std::make_shared<char>();
                 auto newton = this->newtonSolver();
-                if( !newton )
+                auto itperf = newton?   newton->iterationPerformer():   nullptr;
+                auto ddir = itperf?   itperf->newtonDescentDirection():   nullptr;
+                if( !ddir )
                     return;
-                // Set vector mapping for the Newton's solver
-                if( m_reorder )
-                    this->newtonSolver()->setComponent( m_reorder );
-                else
-                    this->newtonSolver()->setComponent( m_mapping4Newton );
-               cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
-                if( auto itperf = newton->iterationPerformer() ) {
-                    // Forward jacobian refresh observers
-                    // Note: a shared pointer must not be captured, because itperf holds the observer
-                    auto itperfPtr = itperf.get();
-                    auto setupDdir = [this, itperfPtr] {
-                        if( auto ddir = itperfPtr->newtonDescentDirection() )
-                            cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
-                        };
-                    itperf->onNewtonDescentDirectionChanged( setupDdir );
-                    setupDdir();
+                // Forward jacobian refresh observers
+                std::weak_ptr<char> token = m_ddirToken;
+                ddir->jacobianRefreshObservers.add( [this, token]( bool start ) {
+                    if( !token.expired() )
+                        this->jacobianRefreshObservers( start );
+                    } );
+                };
+            auto setupIterationPerformer = [this, setupDdir]() {
+                m_itperfToken = std::make_shared<char>();
+                auto newton = this->newtonSolver();
+                if( auto itperf = newton?   newton->iterationPerformer():   nullptr ) {
+                    std::weak_ptr<char> token = m_itperfToken;
+                    itperf->onNewtonDescentDirectionChanged( [token, setupDdir]() {
+                        if( !token.expired() )
+                            setupDdir();
+                        } );
+                    }
+                setupDdir();
+                };
+            auto setupNewtonSolver = [this, setupIterationPerformer]() {
+                m_newtonToken = std::make_shared<char>();
+                if( auto newton = this->newtonSolver() ) {
+                    // Set vector mapping for the Newton's solver
+                    if( m_reorder )
+                        newton->setComponent( m_reorder );
+                    else
+                        newton->setComponent( m_mapping4Newton );
+                    std::weak_ptr<char> token = m_newtonToken;
+                    newton->iterationObservers.add( [this, token]( unsigned int number, const NewtonSolverInterface<VD>* solver ) -> bool {
+                        return !token.expired()   &&   this->iterationObservers( number, solver );
+                        } );
+                    newton->onNewtonIterationPerformerChanged( [token, setupIterationPerformer]() {
+                        if( !token.expired() )
+                            setupIterationPerformer();
+                        } );
                     }
+                setupIterationPerformer();
                 };
             setupNewtonSolver();
             this->onNewtonSolverChanged( setupNewtonSolver );
@@ -231,6 +257,9 @@ class OdeSolverImplicitEuler :
         V m_buf;
         V m_eqnbuf;
         bool m_hardResetRequested;
+        std::shared_ptr<char> m_newtonToken;    // Held while the Newton solver's observers are to be served
+        std::shared_ptr<char> m_itperfToken;    // Held while the iteration performer's observers are to be served
+        std::shared_ptr<char> m_ddirToken;      // Held while the descent direction's observers are to be served
     };
 
 
-- 
2.43.0


From c519421ddf5f6c17d3810e1c115744fb7de45203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:57 +0000
Subject: [PATCH 47/49] fix: the event controller forgets the zero functions of
 a replaced system

---
 include/ode_num_int/ode/interfaces/OdeSolverEventController.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/interfaces/OdeSolverEventController.h b/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
index fe6a9b8..fd9b53c 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
@@ -24,8 +24,10 @@ class OdeSolverEventController :
                 this->setEventController( Factory< OdeEventController<VD> >::newInstance( typeId ) );
 
             auto setControllerRhs = [this]() {
-                if( auto ec = this->eventController() )
+                if( auto ec = this->eventController() ) {
                     ec->setOdeRhs( this->solver().odeRhs() );
+                    ec->reset();
+                    }
                 };
             this->onEventControllerChanged( setControllerRhs );
             solver.onOdeRhsChanged( setControllerRhs );
-- 
2.43.0


From 0058dcf8fba65c0a322e2d506bddc6a0b42797da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:57 +0000
Subject: [PATCH 48/49] fix: Rosenbrock solvers forget the Jacobian and stages
 of a replaced system

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 5 ++++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index fe08fc4..796eff4 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -32,7 +32,10 @@ class OdeSolverRosenbrock_SW2_4 :
             m_disable_error_check( false ),
             m_initialTime( 0 ),
             m_h( 0 )
-            {}
+            {
+            // Nothing computed for another system can be used
+            this->onOdeRhsChanged( [this]() { m_k1.resize( 0 ); } );
+            }
 
         void setInitialStepSize( real_type initialStepSize )
             {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 8112c30..b299b3a 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -25,7 +25,10 @@ class OdeSolverRosenbrock_W1 :
             m_d( 1 ),
             m_initialTime( 0 ),
             m_h( 0 )
-            {}
+            {
+            // Nothing computed for another system can be used
+            this->onOdeRhsChanged( [this]() { m_k1.resize( 0 ); } );
+            }
 
         void setInitialStepSize( real_type initialStepSize )
             {
-- 
2.43.0


From fbe54004eff444036fa934c09dc801bdd8f4a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:57 +0000
Subject: [PATCH 49/49] fix: i_euler starts anew with a replaced system

---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 2b3c577..e32bfdb 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -83,6 +83,7 @@ class OdeSolverImplicitEuler :
 
             this->onOdeRhsChanged([this](){
                 m_mapping4Newton->setOdeRhs( this->odeRhs() );
+                m_hardResetRequested = true;
                 });
             }
 
-- 
2.43.0

