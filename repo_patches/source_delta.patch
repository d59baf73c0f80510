From 5721bc2e3c40671d4c9af34694085c75b7f1bd01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 01/33] fix: map edge vectors as columns when searching for
 symmetries

The candidate transformation was composed as if it acted on rows, but
automorphism() applies it to column vectors, so that most symmetries of
nets in skew bases were missed.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 9dfd9e1..0491feb 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -147,7 +147,7 @@ pub fn symmetries<T, CS>(graph: &Graph<T, CS>) -> Vec<Automorphism<T, CS>>
 
     for i in 0..edge_lists.len() {
         if p.find(&edge_lists[i]) != p.find(&edge_lists[0]) {
-            let m = &bases[i] * &inv_b;
+            let m = (&inv_b * &bases[i]).transpose();
 
             if is_unimodular(&m) {
                 let aff = &AffineMap::new(&m, &Vector::zero(T::dim()));
-- 
2.43.0


From 7cc0cbbf14f20498c24cd4f751919333c71a9f88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 02/33] fix: express shifts of the minimal image in the
 extended lattice basis

The basis vectors are stacked as rows, while the map to the new
coordinates acts on column vectors.
---
 src/symmetries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 0491feb..7371bb8 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -77,7 +77,7 @@ pub fn minimal_image<TIn, TOut, CSIn, CSOut>(graph: &Graph<TIn, CSIn>)
     } else {
         let b = extended_translation_basis(graph, &orbits[0]);
         let rows = b.iter().map(|v| Matrix::row(v)).collect::<Vec<_>>();
-        let m = Matrix::vstack(&rows).inverse().unwrap();
+        let m = Matrix::vstack(&rows).transpose().inverse().unwrap();
         let aff = &AffineMap::new(&m, &Vector::zero(TIn::dim()));
 
         let mut imgs = HashMap::new();
-- 
2.43.0


From 1862f8bc662f44933572a7779c6739b52d223f58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 03/33] fix: choose translations of ladder nets that generate
 no ladder symmetry

For each vector of the extended translation basis an arbitrary one of
several automorphisms was used; their group could contain ladder
symmetries, so that vertices at one position ended up in one orbit and
the minimal image did not represent the net.
---
 src/symmetries.rs | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/symmetries.rs b/src/symmetries.rs
index 7371bb8..e8e7b8a 100644
--- a/src/symmetries.rs
+++ b/src/symmetries.rs
@@ -230,19 +230,42 @@ fn translational_equivalences<T, CS>(graph: &Graph<T, CS>) -> Partition<u32>
     if orbit.iter().skip(1).all(|v| mod1(&graph.position(v)) != p0) {
         equivs
     } else {
-        let mut p = Partition::new();
-
-        for b in extended_translation_basis(graph, &orbit) {
-            let b: Vector = b.iter().cloned().collect();
-            let v = orbit.iter()
-                .find(|v| mod1(&(graph.position(v) + &b)) == p0)
-                .unwrap();
-            let iso = automorphism(&graph, &orbit[0], &v, &id).unwrap();
-            for w in &graph.vertices() {
-                p.unite(w, &iso.vertex_map[w]);
+        // There may be several translations for each basis vector, differing
+        // by ladder symmetries. Pick a combination that generates none of
+        // the latter if there is one.
+        let candidates: Vec<Vec<_>> = extended_translation_basis(graph, &orbit)
+            .into_iter()
+            .map(|b| {
+                let b: Vector = b.into_iter().collect();
+                orbit.iter()
+                    .filter(|v| mod1(&(graph.position(v) + &b)) == p0)
+                    .map(|v| automorphism(&graph, &orbit[0], v, &id).unwrap())
+                    .collect()
+            })
+            .collect();
+
+        let choices: Vec<_> = candidates.iter()
+            .multi_cartesian_product()
+            .collect();
+
+        let generated = |isos: &Vec<&Automorphism<T, CS>>| {
+            let mut p = Partition::new();
+            for iso in isos {
+                for w in &graph.vertices() {
+                    p.unite(w, &iso.vertex_map[w]);
+                }
             }
-        }
-        p
+            p
+        };
+
+        let has_ladder = |p: &Partition<u32>| orbit.iter().skip(1).any(|v|
+            p.find(v) == p.find(&orbit[0]) && mod1(&graph.position(v)) == p0
+        );
+
+        choices.iter()
+            .map(generated)
+            .find(|p| !has_ladder(p))
+            .unwrap_or_else(|| generated(&choices[0]))
     }
 }
 
-- 
2.43.0


From 5cba7f1d02369efecfa687afabee383a83ece8ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 04/33] fix: round towards minus infinity when reducing above
 integer pivots

An entry that is a negative multiple of the pivot was reduced to the
pivot itself rather than to zero, so that bases of the same lattice
could have different reduced forms.
---
 src/arithmetic/linear_algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 99c3f1d..58a9c22 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -167,7 +167,7 @@ fn reduce_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &Vec<T>)
     where T: num_traits::PrimInt + SubAssign
 {
     let f = v[col] / b[col] - (
-        if v[col] < T::zero() { T::one() } else { T::zero() }
+        if v[col] % b[col] < T::zero() { T::one() } else { T::zero() }
     );
 
     if f != T::zero() {
-- 
2.43.0


From f3e1612a52b535063b79d598039c3c69a171a4d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 05/33] fix: use least nonnegative residues in modular
 arithmetic

Negative multiples of the prime were turned into the prime itself, which
then looked like a pivot without an inverse, and the inverse of a
negative number was missing or wrong.
---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 347f16a..e5dc989 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -4,7 +4,7 @@ use num_rational::BigRational;
 
 pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
     let (mut t, mut t1) = (0, 1);
-    let (mut r, mut r1) = (modulus, argument);
+    let (mut r, mut r1) = (modulus, argument.rem_euclid(modulus));
 
     while r1 != 0 {
         let q = r / r1;
@@ -32,7 +32,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
     for row in matrix {
         assert!(a.len() == 0 || row.len() == a[0].len());
         let row = row.iter()
-            .map(|&n| n % prime + if n < 0 { prime } else { 0 })
+            .map(|&n| n.rem_euclid(prime))
             .collect();
         a.push(row);
     }
-- 
2.43.0


From aecbfd352082842596e5f04a3f5f673cb0ec523d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 06/33] fix: stay in the same row after a column without a
 pivot

The modular echelon form skipped a row for every such column, so that
matrices with dependent columns were not fully reduced.
---
 src/arithmetic/modular_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index e5dc989..fe8a887 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -63,9 +63,9 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     }
                 }
             }
-        }
 
-        irow += 1;
+            irow += 1;
+        }
     }
 
     a
-- 
2.43.0


From a47197684bd415abd8722f515d0a053faf0ae69f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 07/33] fix: try further primes if the determinant is divisible
 by the first

The p-adic solver reported that there is no solution, and hence node
positions could not be computed, whenever the determinant of a regular
matrix happened to be a multiple of 9999991.
---
 src/arithmetic/modular_solver.rs | 36 +++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index fe8a887..1f0257d 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -197,10 +197,40 @@ fn rational_reconstruction(s: &BigInt, h: &BigInt) -> BigRational {
 }
 
 
-pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
-    let prime = 9999991;
+fn previous_prime(n: i64) -> i64 {
+    (2..n).rev()
+        .find(|&p| (2..).take_while(|d| d * d <= p).all(|d| p % d != 0))
+        .unwrap()
+}
+
+
+fn inverse_modulo_some_prime(a: &Matrix) -> Option<(Matrix, i64)> {
+    if a.len() == 0 {
+        return None;
+    }
 
-    if let Some(c) = modular_matrix_inverse(a, prime) {
+    // The determinant is bounded by the product of the column norms
+    // (Hadamard), and if it is not zero, it can only be divisible by a set of
+    // primes with a product within that bound.
+    let log_bound: f64 = (0..a[0].len()).map(|j| column_norm(a, j).ln()).sum();
+    let mut log_product = 0.0;
+    let mut prime = 9999991;
+
+    while log_product <= log_bound + 1.0 {
+        if let Some(c) = modular_matrix_inverse(a, prime) {
+            return Some((c, prime));
+        }
+
+        log_product += (prime as f64).ln();
+        prime = previous_prime(prime);
+    }
+
+    None
+}
+
+
+pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
+    if let Some((c, prime)) = inverse_modulo_some_prime(a) {
         let nr_steps = number_of_p_adic_steps_needed(a, b, prime);
         let nrows = b.len();
         let ncols = b[0].len();
-- 
2.43.0


From 9a255a845355acb5326d87645680ddc41af32055 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 08/33] fix: reduce negative coordinates to the same coset
 representatives

---
 src/arithmetic/geometry.rs |  8 +++++---
 src/spacegroups/basics.rs  | 11 ++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/arithmetic/geometry.rs b/src/arithmetic/geometry.rs
index a5fd2fa..9b0d21d 100644
--- a/src/arithmetic/geometry.rs
+++ b/src/arithmetic/geometry.rs
@@ -116,10 +116,12 @@ impl<T, CS> Neg for Vector<T, CS>
 
 
 impl<T, CS> ModZ for Vector<T, CS>
-    where T: Clone + One + Rem<Output=T>
+    where T: Clone + One + Add<Output=T> + Rem<Output=T>
 {
     fn mod_z(&self) -> Self {
-        self.iter().cloned().map(|x| x % T::one()).collect()
+        self.iter().cloned()
+            .map(|x| (x % T::one() + T::one()) % T::one())
+            .collect()
     }
 }
 
@@ -637,7 +639,7 @@ impl<T: Clone + Zero, CS: Clone> From<Matrix<T>> for AffineMap<T, CS> {
 }
 
 impl<T, CS> ModZ for AffineMap<T, CS>
-    where T: Clone + One + Rem<Output=T>, CS: Clone
+    where T: Clone + One + Add<Output=T> + Rem<Output=T>, CS: Clone
 {
     fn mod_z(&self) -> Self {
         AffineMap::new(&self.linear_matrix(), &self.shift().mod_z())
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 5f6999e..de83827 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -3,7 +3,7 @@ use std::ops::{Rem, Mul};
 use std::collections::HashSet;
 
 use num_rational::BigRational;
-use num_traits::{One, Zero};
+use num_traits::{One, Signed, Zero};
 
 use crate::arithmetic::geometry::{AffineMap, Vector, CoordinateMap, ModZ};
 use crate::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
@@ -69,9 +69,14 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
                 translations.push(op.shift().into_iter().collect());
             }
         }
-        let cell: Vec<_> = rational_lattice_basis(&translations)
+        let mut cell: Vec<_> = rational_lattice_basis(&translations)
             .into_iter().map(|v| Vector::new(&v)).collect();
-        let to_primitive = CoordinateMap::to_basis(&cell);
+        let mut to_primitive = CoordinateMap::to_basis(&cell);
+
+        if to_primitive.determinant().is_negative() {
+            cell[0] = -&cell[0];
+            to_primitive = CoordinateMap::to_basis(&cell);
+        }
 
         let mut seen = HashSet::new();
         let mut ops = vec![];
-- 
2.43.0


From b32ac337980aa64fa8c21413a2d49a8e95c7a784 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 09/33] fix: test metrics for invariance under operators acting
 on columns

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index de83827..f0fa863 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -125,7 +125,7 @@ pub fn gram_matrix_configuration_space<CS: Clone>(
                 let mut eqn = vec![BigRational::zero(); m];
                 for ja in 0..dim {
                     for jb in 0..dim {
-                        eqn[k[(ja, jb)]] += &s[(ia, ja)] * &s[(ib, jb)];
+                        eqn[k[(ja, jb)]] += &s[(ja, ia)] * &s[(jb, ib)];
                     }
                 }
                 eqn[k[(ia, ib)]] -= BigRational::one();
-- 
2.43.0


From dea9ad585c2e1fb4dfdc32d268f1fd3cad86d986 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 10/33] fix: report the full shift space if all operators are
 translations

---
 src/spacegroups/basics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index f0fa863..6fc0595 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -157,8 +157,12 @@ pub fn shift_space<CS: Clone>(ops: &Vec<AffineMap<BigRational, CS>>)
         }
     }
 
-    let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
-    Matrix::vstack(&eqns).null_space()
+    if eqns.is_empty() {
+        Some(id)
+    } else {
+        let eqns: Vec<Matrix<_>> = eqns.iter().map(|v| Matrix::row(v)).collect();
+        Matrix::vstack(&eqns).null_space()
+    }
 }
 
 
-- 
2.43.0


From 955400f8cd57b1aa544457f455aa9ebed02d8dc1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 11/33] fix: reject a zero denominator in an operator instead
 of panicking

---
 src/spacegroups/parse_operator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index cde208a..b6d9d09 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -81,7 +81,11 @@ fn unsigned_fraction(input: &str) -> IResult<&str, Fraction> {
             separated_pair(
                 integer, tuple((space0, char('/'), space0)), integer
             ),
-            |(n, d)| Some(Ratio::new(n as i32, d as i32))
+            |(n, d)| if d == 0 {
+                None
+            } else {
+                Some(Ratio::new(n as i32, d as i32))
+            }
         ),
         map_opt(integer, |n| Some(Ratio::from_integer(n as i32))),
     ))(input)
-- 
2.43.0


From 20d2c16e8d3516d9a30d1ac20b802c821ba2f5b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 12/33] fix: reject operators that need more coordinates than
 they have

---
 src/spacegroups/parse_operator.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/spacegroups/parse_operator.rs b/src/spacegroups/parse_operator.rs
index b6d9d09..7c31e74 100644
--- a/src/spacegroups/parse_operator.rs
+++ b/src/spacegroups/parse_operator.rs
@@ -7,7 +7,7 @@ use nom::combinator::map_opt;
 use nom::multi::{many0, separated_list1};
 use nom::sequence::{separated_pair, tuple, pair, preceded, delimited};
 use num_rational::Ratio;
-use num_traits::CheckedAdd;
+use num_traits::{CheckedAdd, Zero};
 
 
 #[derive(Debug, Eq, Hash, PartialEq)]
@@ -26,8 +26,10 @@ type Operator = (Vec<Vec<Ratio<i32>>>, Vec<Ratio<i32>>);
 
 pub fn parse_operator(input: &str) -> Result<(&str, Operator), String>
 {
+    let operator = map_opt(operator, |op| convert_operator(&op));
+
     match delimited(space0, operator, space0)(input).finish() {
-        Ok((rest, op)) => Ok((rest, convert_operator(&op))),
+        Ok((rest, op)) => Ok((rest, op)),
         Err(err) => Err(err.to_string()),
     }
 }
@@ -107,7 +109,15 @@ fn integer(input: &str) -> IResult<&str, u32> {
 }
 
 
-fn convert_operator(op: &[Coordinate]) -> Operator {
+fn convert_operator(op: &[Coordinate]) -> Option<Operator> {
+    let n = op.len();
+
+    if op.iter().any(|(r, _)|
+        r.len() < n || r[n..].iter().any(|x| !x.is_zero())
+    ) {
+        return None;
+    }
+
     let mut rows = vec![];
     let mut shift = vec![];
 
@@ -116,12 +126,11 @@ fn convert_operator(op: &[Coordinate]) -> Operator {
         shift.push(*s);
     }
 
-    let n = shift.len();
     let rows = rows.iter()
         .map(|v| v.iter().take(n).copied().collect())
         .collect();
 
-    (rows, shift)
+    Some((rows, shift))
 }
 
 
-- 
2.43.0


From 75de0e77ba262a98e22f9bbd5afa75202b884a6c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 13/33] fix: refuse incomplete alias and lookup lines instead
 of panicking

---
 src/spacegroups/parse_table.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index e6ba02f..f150bbf 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -232,7 +232,9 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             let fields: Vec<_> = content.split_whitespace().collect();
 
             if fields[0].to_lowercase() == "alias" {
-                alias.insert(fields[1].into(), fields[2].into());
+                alias.insert(
+                    (*fields.get(1)?).into(), (*fields.get(2)?).into()
+                );
             } else if fields[0].to_lowercase() == "lookup" {
                 lookup.push(make_lookup_entry(&fields)?);
             } else {
@@ -260,6 +262,10 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
 
 
 fn make_lookup_entry(fields: &Vec<&str>) -> Option<Lookup> {
+    if fields.len() < 5 {
+        return None;
+    }
+
     let name = fields[1].to_string();
     let spec = fields[4..].join(" ");
     let from_std = CoordinateMap::from_string(&spec)?;
-- 
2.43.0


From 154cab70b4c5817205d26d75b22daae31e363c2f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 14/33] fix: refuse singular coordinate changes instead of
 panicking

---
 src/spacegroups/parse_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index f150bbf..da9e792 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -207,7 +207,10 @@ fn promote_vec<T: Coord>(v: &Vec<Ratio<i32>>) -> Vec<T> {
 
 impl<CSIn: Clone, CSOut: Clone>  CoordinateMap<BigRational, CSIn, CSOut> {
     pub fn from_string(s: &str) -> Option<Self> {
-        Some(CoordinateMap::new(&AffineMap::from_string(s)?))
+        let forward = AffineMap::from_string(s)?;
+        forward.inverse()?;
+
+        Some(CoordinateMap::new(&forward))
     }
 }
 
-- 
2.43.0


From 89e55d9fe205f85d3c5ec03c660907deaf600a69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 15/33] fix: refuse operators followed by other text

---
 src/spacegroups/parse_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index da9e792..d7ae446 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -184,9 +184,9 @@ impl Centering {
 
 impl<CS: Clone> AffineMap<BigRational, CS> {
     pub fn from_string(s: &str) -> Option<Self> {
-        let (_, (linear, shift)) = parse_operator(s).ok()?;
+        let (rest, (linear, shift)) = parse_operator(s).ok()?;
 
-        if linear.len() != shift.len() {
+        if !rest.is_empty() || linear.len() != shift.len() {
             None
         } else {
             let linear: Vec<_> = linear.iter().map(promote_vec).collect();
-- 
2.43.0


From 3e93fb7a227a8fc70b704b76a7b4c22a6aef9425 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 16/33] fix: refuse operators that do not have the dimension of
 their setting

---
 src/spacegroups/parse_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index d7ae446..91312b8 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -230,7 +230,11 @@ pub fn parse_space_group_table<T: Read>(input: T) -> Option<Tables> {
             continue;
         } else if line.starts_with(' ') {
             let op = AffineMap::from_string(content)?;
-            settings.get_mut(&current_name)?.operators.push(op);
+            let setting = settings.get_mut(&current_name)?;
+            if op.dim() != setting.transform.dim() {
+                return None;
+            }
+            setting.operators.push(op);
         } else {
             let fields: Vec<_> = content.split_whitespace().collect();
 
-- 
2.43.0


From 56e77655c58d8a46654435c09bd88c70f4e776f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 17/33] fix: print constant terms equal to plus or minus one

---
 src/spacegroups/parse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/parse_table.rs b/src/spacegroups/parse_table.rs
index 91312b8..621fd75 100644
--- a/src/spacegroups/parse_table.rs
+++ b/src/spacegroups/parse_table.rs
@@ -91,7 +91,7 @@ fn write_op_row(
             } else if val.is_negative() {
                 write!(f, "-")?;
             }
-            if !val.abs().is_one() {
+            if axis.is_empty() || !val.abs().is_one() {
                 write!(f, "{}", val.abs())?;
             }
             write!(f, "{}", axis)?;
-- 
2.43.0


From b05c36de61c45994d245a46cc18a9caa0c2e439f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 18/33] fix: do not read 1/0 as a fraction instead of panicking

---
 src/io/parse_cgd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 5d0db33..c9491b9 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -78,7 +78,7 @@ fn field(input: &str) -> IResult<&str, Field> {
 fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
     map_opt(
         separated_pair(integer, char('/'), unsigned_integer),
-        |(n, d)| Some(Ratio::new(n, d as i32))
+        |(n, d)| if d == 0 { None } else { Some(Ratio::new(n, d as i32)) }
     )(input)
 }
 
-- 
2.43.0


From 9449ff06798256a2d16855597206f72eebb3cdda Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 19/33] fix: do not misread names starting with inf, nan or a
 number and an e

---
 src/io/parse_cgd_line.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index c9491b9..6911769 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -2,12 +2,11 @@ use std::iter;
 
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
-use nom::character::complete::{char, digit1, space0, space1};
+use nom::character::complete::{char, digit0, digit1, one_of, space0, space1};
 use nom::character::{is_space, is_alphabetic};
 use nom::multi::separated_list0;
-use nom::number::complete::double;
-use nom::sequence::{separated_pair, preceded, delimited, pair};
-use nom::combinator::{map_opt, rest, opt};
+use nom::sequence::{separated_pair, preceded, delimited, pair, tuple};
+use nom::combinator::{map_opt, recognize, rest, opt, value};
 use nom::branch::alt;
 use num_rational::Ratio;
 
@@ -68,7 +67,7 @@ fn key(input: &str) -> IResult<&str, &str> {
 fn field(input: &str) -> IResult<&str, Field> {
     alt((
         map_opt(fraction, |f| Some(Field::Fraction(f))),
-        map_opt(double, double_to_field()),
+        map_opt(decimal, double_to_field()),
         map_opt(quoted_string, |f| Some(Field::Name(f.to_string()))),
         map_opt(name, |f| Some(Field::Name(f.to_string()))),
     ))(input)
@@ -83,6 +82,23 @@ fn fraction(input: &str) -> IResult<&str, Ratio<i32>> {
 }
 
 
+// nom's own float parser also accepts prefixes like `inf` and `nan` and fails
+// for good on an `e` without digits after it.
+fn decimal(input: &str) -> IResult<&str, f64> {
+    map_opt(
+        recognize(tuple((
+            opt(one_of("+-")),
+            alt((
+                value((), pair(digit1, opt(pair(char('.'), digit0)))),
+                value((), pair(char('.'), digit1)),
+            )),
+            opt(tuple((one_of("eE"), opt(one_of("+-")), digit1))),
+        ))),
+        |s: &str| s.parse().ok()
+    )(input)
+}
+
+
 fn integer(input: &str) -> IResult<&str, i32> {
     alt((
         map_opt(unsigned_integer, |n| Some(n as i32)),
-- 
2.43.0


From 2d782c33252e9469f45db809499e61aa70044eb0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 20/33] fix: do not end names at characters whose code ends
 like that of a blank

---
 src/io/parse_cgd_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_line.rs b/src/io/parse_cgd_line.rs
index 6911769..18ba57f 100644
--- a/src/io/parse_cgd_line.rs
+++ b/src/io/parse_cgd_line.rs
@@ -3,7 +3,7 @@ use std::iter;
 use nom::{IResult, Finish};
 use nom::bytes::complete::{take_till1, take_until1, tag};
 use nom::character::complete::{char, digit0, digit1, one_of, space0, space1};
-use nom::character::{is_space, is_alphabetic};
+use nom::character::is_alphabetic;
 use nom::multi::separated_list0;
 use nom::sequence::{separated_pair, preceded, delimited, pair, tuple};
 use nom::combinator::{map_opt, recognize, rest, opt, value};
@@ -113,7 +113,7 @@ fn quoted_string(input: &str) -> IResult<&str, &str> {
 
 
 fn name(input: &str) -> IResult<&str, &str> {
-    take_till1(|c| c == '"' || c == '#' || is_space(c as u8))(input)
+    take_till1(|c| c == '"' || c == '#' || c == ' ' || c == '\t')(input)
 }
 
 
-- 
2.43.0


From 1e7a9637fe455807dbc07ee0daa0f1b8cea994dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 21/33] fix: warn about a single word after a block type or
 'end', too

---
 src/io/parse_cgd_blocks.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index d84cbb2..f8d2a98 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -103,7 +103,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                             entry.add_error("block has no type or content");
                         }
                         current_block.lineno_end = entry.line_number;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after 'end' ignored");
                         }
                         current_block.entries.push(entry);
@@ -116,7 +116,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.block_type = new_key;
                         in_block = true;
                         current_key = None;
-                        if entry.fields.len() > 1 {
+                        if entry.fields.len() > 0 {
                             entry.add_warning("text after block type ignored");
                         }
                         current_block.entries.push(entry);
-- 
2.43.0


From b6a11535c3d86646f5202389416f7bc451bfd018 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 22/33] fix: do not put data outside of blocks under the last
 block's key

---
 src/io/parse_cgd_blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index f8d2a98..bbae8f7 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -109,6 +109,7 @@ pub fn parse_blocks<T: Read>(input: T) -> Vec<Block> {
                         current_block.entries.push(entry);
                         blocks.push(current_block);
                         current_block = Block::new();
+                        current_key = None;
                         in_block = false;
                     } else if !in_block {
                         entry.entry_type = EntryType::Begin;
-- 
2.43.0


From bdd46d7193b79e68cfb66cefa5be1d4e16173b47 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 23/33] fix: stop reading crystal data after a read error
 instead of looping

---
 src/io/parse_cgd_blocks.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/io/parse_cgd_blocks.rs b/src/io/parse_cgd_blocks.rs
index bbae8f7..a09ca35 100644
--- a/src/io/parse_cgd_blocks.rs
+++ b/src/io/parse_cgd_blocks.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, Read, BufReader};
+use std::io::{BufRead, BufReader, Error, ErrorKind, Read};
 
 use super::parse_cgd_line::{parse_cgd_line, Field};
 
@@ -152,7 +152,21 @@ pub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {
     let mut all_entries = vec![];
     let mut lineno = 0;
 
-    for line in BufReader::new(input).lines() {
+    let mut lines = BufReader::new(input).split(b'\n');
+    let mut failed = false;
+
+    while let Some(line) = if failed { None } else { lines.next() } {
+        // a reader that fails once may do so forever
+        failed = line.is_err();
+
+        let line = line.and_then(|mut bytes| {
+            if bytes.last() == Some(&b'\r') {
+                bytes.pop();
+            }
+            String::from_utf8(bytes)
+                .map_err(|e| Error::new(ErrorKind::InvalidData, e))
+        });
+
         let mut current_entry = Entry::new(
             EntryType::Data, lineno, None, None, vec![]
         );
-- 
2.43.0


From 695e3f9806ee996f6aaf75b330ffe767ef90dbbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 24/33] fix: allow groups without centering translations in
 primitive settings

---
 src/spacegroups/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index 6fc0595..b3eb919 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -63,7 +63,7 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
         let id = Matrix::identity(dim);
         let s0 = Vector::zero(dim);
 
-        let mut translations = vec![];
+        let mut translations = vec![vec![BigRational::zero(); dim]];
         for op in ops_all {
             if op.linear_matrix() == id && op.shift() != s0 {
                 translations.push(op.shift().into_iter().collect());
-- 
2.43.0


From fcb6aa4e6773aa9c9c506c16456ba868c9784813 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 25/33] fix: take the second basis vector of hexagonal groups
 120 degrees from the first

---
 src/spacegroups/finder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index bae7037..b39cdb4 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -215,7 +215,7 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
 
     let y = if m >= 3 {
         let s = ops_with_details.iter().find(|s|
-            s.is_orientation_preserving && s.is_clockwise && s.order == m
+            s.is_orientation_preserving && !s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
     } else if mirrors.len() > 1 {
-- 
2.43.0


From f43bcc17024d207fd3fb2b68bf015f9be3685d93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 26/33] fix: ignore repeated mirrors in the basis for
 rectangular groups

---
 src/spacegroups/finder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index b39cdb4..f69fab4 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -218,8 +218,8 @@ fn crystal_system_and_basis_2d<T>(ops: &[Matrix<T>])
             s.is_orientation_preserving && !s.is_clockwise && s.order == m
         ).unwrap();
         &s.matrix * &x
-    } else if mirrors.len() > 1 {
-        Matrix::col(&mirrors[1].axis.clone().unwrap())
+    } else if let Some(s) = mirrors.iter().find(|s| s.axis != mirrors[0].axis) {
+        Matrix::col(&s.axis.clone().unwrap())
     } else {
         let t = if x[(0, 0)] == T::zero() {
             Matrix::col(&[T::one(), T::zero()])
-- 
2.43.0


From ab36fae25f4f030f4f4b61c4d8883e4388bbb844 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 27/33] hook: constructor and parts of primitive settings

---
 src/spacegroups/basics.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index b3eb919..d13a787 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -94,6 +94,31 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
+#[allow(unexpected_cfgs)]
+#[cfg(systre_verif)]
+impl<CS, CSP> PrimitiveSetting<CS, CSP>
+    where
+        CS: Clone + Eq,
+        CSP: Clone + Eq + Hash
+{
+    pub fn verif_new(ops: &Vec<AffineMap<BigRational, CS>>) -> Self {
+        Self::new(ops)
+    }
+
+    pub fn verif_cell(&self) -> &Vec<Vector<BigRational, CS>> {
+        &self.cell
+    }
+
+    pub fn verif_to_primitive(&self) -> &CoordinateMap<BigRational, CS, CSP> {
+        &self.to_primitive
+    }
+
+    pub fn verif_ops(&self) -> &Vec<AffineMap<BigRational, CSP>> {
+        &self.ops
+    }
+}
+
+
 pub fn gram_matrix_configuration_space<CS: Clone>(
     ops: &Vec<AffineMap<BigRational, CS>>
 )
-- 
2.43.0


From e320dc3628e4ac427c62af28d06ba0e472a67ff8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 28/33] hook: private functions of the space group finder

---
 src/lib.rs                |  2 ++
 src/spacegroups/basics.rs |  1 -
 src/spacegroups/finder.rs | 43 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76c5828..88c3ec5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // for cfg(systre_verif)
+
 pub mod arithmetic;
 pub mod io;
 pub mod partitions;
diff --git a/src/spacegroups/basics.rs b/src/spacegroups/basics.rs
index d13a787..c83f523 100644
--- a/src/spacegroups/basics.rs
+++ b/src/spacegroups/basics.rs
@@ -94,7 +94,6 @@ impl<CS, CSP> PrimitiveSetting<CS, CSP>
 }
 
 
-#[allow(unexpected_cfgs)]
 #[cfg(systre_verif)]
 impl<CS, CSP> PrimitiveSetting<CS, CSP>
     where
diff --git a/src/spacegroups/finder.rs b/src/spacegroups/finder.rs
index f69fab4..778b96c 100644
--- a/src/spacegroups/finder.rs
+++ b/src/spacegroups/finder.rs
@@ -362,6 +362,49 @@ fn as_columns<T>(vs: Vec<Vec<T>>) -> Vec<Matrix<T>>
 }
 
 
+#[cfg(systre_verif)]
+pub mod verif {
+    use num_rational::BigRational;
+
+    use super::*;
+
+    pub struct Details {
+        pub matrix: Matrix<BigRational>,
+        pub dimension: usize,
+        pub axis: Option<Vec<BigRational>>,
+        pub order: usize,
+        pub is_orientation_preserving: bool,
+        pub is_clockwise: bool,
+    }
+
+    pub fn operator_details(matrix: Matrix<BigRational>) -> Details {
+        let d = OperatorDetails::from(matrix);
+        Details {
+            matrix: d.matrix,
+            dimension: d.dimension,
+            axis: d.axis,
+            order: d.order,
+            is_orientation_preserving: d.is_orientation_preserving,
+            is_clockwise: d.is_clockwise,
+        }
+    }
+
+    pub fn crystal_system_and_basis_2d(ops: &[Matrix<BigRational>])
+        -> (CrystalSystem, Vec<Matrix<BigRational>>)
+    {
+        super::crystal_system_and_basis_2d(ops)
+    }
+
+    pub fn normalized_basis_2d(
+        crystal_system: CrystalSystem, basis: &Vec<Matrix<BigRational>>
+    )
+        -> (Vec<Matrix<BigRational>>, Centering)
+    {
+        super::normalized_basis_2d(crystal_system, basis)
+    }
+}
+
+
 #[cfg(test)]
 mod tests {
     use num_bigint::BigInt;
-- 
2.43.0


From d8857bfbe5b9fe3d9d6409de0424c66d7a097af5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 29/33] fix: do not let products overflow in modular arithmetic
 and the p-adic solver

---
 src/arithmetic/modular_solver.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/arithmetic/modular_solver.rs b/src/arithmetic/modular_solver.rs
index 1f0257d..a92d74e 100644
--- a/src/arithmetic/modular_solver.rs
+++ b/src/arithmetic/modular_solver.rs
@@ -20,6 +20,11 @@ pub fn modular_inverse(argument: i64, modulus: i64) -> Option<i64> {
 }
 
 
+fn modular_product(a: i64, b: i64, modulus: i64) -> i64 {
+    (a as i128 * b as i128 % modulus as i128) as i64
+}
+
+
 type Matrix = Vec<Vec<i64>>;
 
 pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
@@ -48,7 +53,7 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
 
             let f = modular_inverse(a[irow][icol], prime).unwrap();
             for j in icol..ncols {
-                a[irow][j] = (a[irow][j] * f) % prime;
+                a[irow][j] = modular_product(a[irow][j], f, prime);
             }
 
             for i in 0..nrows {
@@ -56,9 +61,8 @@ pub fn modular_row_echelon_form(matrix: &Matrix, prime: i64) -> Matrix {
                     let f = a[i][icol];
                     for j in icol..ncols {
                         if a[irow][j] != 0 {
-                            a[i][j] = (
-                                prime - (a[irow][j] * f) % prime + a[i][j]
-                            ) % prime;
+                            let p = modular_product(a[irow][j], f, prime);
+                            a[i][j] = (a[i][j] - p).rem_euclid(prime);
                         }
                     }
                 }
@@ -121,8 +125,8 @@ pub fn modular_matrix_product(a: &Matrix, b: &Matrix, prime: i64) -> Matrix {
         let mut row_out = vec![];
         for j in 0..ncols_b {
             let p = (0..ncols_a)
-                .map(|i| (row[i] * b[i][j]) % prime)
-                .reduce(|p, q| (p + q) % prime)
+                .map(|i| modular_product(row[i], b[i][j], prime))
+                .reduce(|p, q| ((p as i128 + q as i128) % prime as i128) as i64)
                 .unwrap();
             row_out.push(p);
         }
@@ -236,14 +240,20 @@ pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
         let ncols = b[0].len();
 
         let mut p = BigInt::from(1);
-        let mut b = b.clone();
+        let mut b: Vec<Vec<_>> = b.iter()
+            .map(|row| row.iter().map(|&n| n as i128).collect())
+            .collect();
 
         let mut s: Vec<Vec<_>> = (0..nrows).map(|_| {
             (0..ncols).map(|_| { BigInt::from(0) }).collect()
         }).collect();
 
         for step in 0..nr_steps {
-            let x = modular_matrix_product(&c, &b, prime);
+            let b_mod = b.iter()
+                .map(|row| row.iter().map(|n| (n % prime as i128) as i64))
+                .map(|row| row.collect())
+                .collect();
+            let x = modular_matrix_product(&c, &b_mod, prime);
             for i in 0..nrows {
                 for j in 0..ncols {
                     s[i][j] += &p * x[i][j];
@@ -253,10 +263,12 @@ pub fn solve(a: &Matrix, b: &Matrix) -> Option<Vec<Vec<BigRational>>> {
             p *= prime;
 
             if step + 1 < nr_steps {
-                let ax = integer_matrix_product(a, &x);
                 for i in 0..nrows {
                     for j in 0..ncols {
-                        b[i][j] = (b[i][j] - ax[i][j]) / prime;
+                        let ax: i128 = (0..a[i].len())
+                            .map(|k| a[i][k] as i128 * x[k][j] as i128)
+                            .sum();
+                        b[i][j] = (b[i][j] - ax) / prime as i128;
                     }
                 }
             }
-- 
2.43.0


From 832670a0099d5d5d07c9e0e1e5d131f99a256775 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 30/33] fix: compute rational lattice bases with arbitrary-size
 integers

The elimination was done in i32 and overflowed, or gave a wrong lattice
in release builds, for vectors whose common denominator is still small,
such as a few planar vectors with denominators dividing 2520.
---
 src/arithmetic/linear_algebra.rs | 55 +++++++++++++++++++++++++++++++-
 src/spacegroups/lattices.rs      | 26 +++++----------
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/src/arithmetic/linear_algebra.rs b/src/arithmetic/linear_algebra.rs
index 58a9c22..c924502 100644
--- a/src/arithmetic/linear_algebra.rs
+++ b/src/arithmetic/linear_algebra.rs
@@ -1,8 +1,10 @@
 use std::ops::{Add, Sub, Mul, Div, Neg, SubAssign};
 use std::ops::{AddAssign, MulAssign};
 
+use num_bigint::BigInt;
+use num_integer::Integer;
 use num_rational::{BigRational};
-use num_traits::{Zero, One};
+use num_traits::{Zero, One, Signed};
 
 use super::matrices::Matrix;
 
@@ -141,6 +143,57 @@ impl Scalar for i64 {
 }
 
 
+impl Scalar for BigInt {
+    fn clear_column(col: usize, v: &mut Vec<Self>, b: &mut Vec<Self>) {
+        let g = b[col].extended_gcd(&v[col]);
+        let t = -&v[col] / &g.gcd;
+        let u = &b[col] / &g.gcd;
+
+        for k in col..v.len() {
+            let tmp = &b[k] * &g.x + &v[k] * &g.y;
+            v[k] = &b[k] * &t + &v[k] * &u;
+            b[k] = tmp;
+        }
+    }
+
+    fn normalize_column(col: usize, v: &mut Vec<Self>) {
+        if v[col].is_negative() {
+            for k in col..v.len() {
+                v[k] = -&v[k];
+            }
+        }
+    }
+
+    fn reduce_column(col: usize, v: &mut Vec<Self>, b: &Vec<Self>) {
+        let f = v[col].div_floor(&b[col]);
+
+        for k in col..v.len() {
+            v[k] -= &b[k] * &f;
+        }
+    }
+
+    fn solve_row(a: &Vec<Self>, x: &Vec<Vec<Self>>, b: &Vec<Self>)
+        -> Option<Vec<Self>>
+    {
+        let k = x.len();
+        let mut result = vec![Self::zero(); b.len()];
+
+        for col in 0..b.len() {
+            let mut t = b[col].clone();
+            for i in 0..k {
+                t -= &a[i] * &x[i][col];
+            }
+            if (&t % &a[k]).is_zero() {
+                result[col] = t / &a[k];
+            } else {
+                return None;
+            }
+        }
+        Some(result)
+    }
+}
+
+
 fn clear_column_primitive_int<T>(col: usize, v: &mut Vec<T>, b: &mut Vec<T>)
     where T: num_traits::PrimInt
 {
diff --git a/src/spacegroups/lattices.rs b/src/spacegroups/lattices.rs
index 41975d7..3af20f8 100644
--- a/src/spacegroups/lattices.rs
+++ b/src/spacegroups/lattices.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 
 use num_bigint::BigInt;
 use num_rational::BigRational;
-use num_traits::{One, ToPrimitive, abs};
+use num_traits::{One, Zero, abs};
 use num_integer::Integer;
 
 use crate::arithmetic::linear_algebra::extend_basis;
@@ -226,40 +226,30 @@ pub fn rational_lattice_basis(vectors: &Vec<Vec<BigRational>>)
         }
     }
 
-    let common_denom = common_denom.to_i32().unwrap();
-    let f = BigRational::from(BigInt::from(common_denom));
+    let f = BigRational::from(common_denom.clone());
 
     let mut basis = vec![];
 
     for k in 0..dim {
-        let mut b = vec![0; dim];
-        b[k] = common_denom;
+        let mut b = vec![BigInt::zero(); dim];
+        b[k] = common_denom.clone();
         extend_basis(&b, &mut basis);
     }
 
     for d in vectors {
-        let d: Vec<_> = d.iter().map(|x| r_to_i32(&(x * &f)).unwrap()).collect();
+        let d: Vec<_> = d.iter().map(|x| (x * &f).to_integer()).collect();
         extend_basis(&d, &mut basis);
     }
 
-    basis.iter()
-        .map(|b| b.iter()
-            .map(|x| BigRational::from(BigInt::from(*x)) / &f)
+    basis.into_iter()
+        .map(|b| b.into_iter()
+            .map(|x| BigRational::from(x) / &f)
             .collect::<Vec<_>>()
         )
         .collect()
 }
 
 
-fn r_to_i32(x: &BigRational) -> Option<i32> {
-    if x.is_integer() {
-        x.to_integer().to_i32()
-    } else {
-        None
-    }
-}
-
-
 #[cfg(test)]
 mod tests {
     use num_traits::Signed;
-- 
2.43.0


From f0376025e995adee9c63964fb5a88398273836ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 31/33] fix: a partition asked again by the comparison, hash or
 copy of an element is not corrupted

---
 src/partitions.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/partitions.rs b/src/partitions.rs
index deaf254..1ddda79 100644
--- a/src/partitions.rs
+++ b/src/partitions.rs
@@ -1,4 +1,4 @@
-use std::cell::UnsafeCell;
+use std::cell::RefCell;
 use std::hash::Hash;
 use std::collections::HashMap;
 
@@ -77,21 +77,21 @@ impl<T> PartitionImpl<T> where T: Clone + Eq + Hash {
 
 
 pub struct Partition<T> {
-    _impl: UnsafeCell<PartitionImpl<T>>,
+    _impl: RefCell<PartitionImpl<T>>,
 }
 
 
 impl<T> Partition<T> where T: Clone + Eq + Hash {
     pub fn new() -> Self {
-        Partition { _impl: UnsafeCell::new(PartitionImpl::new())}
+        Partition { _impl: RefCell::new(PartitionImpl::new())}
     }
 
     pub fn find(&self, x: &T) -> T {
-        unsafe { (*self._impl.get()).find(x) }
+        self._impl.borrow_mut().find(x)
     }
 
     pub fn unite(&mut self, x: &T, y: &T) {
-        unsafe { (*self._impl.get()).unite(x, y) };
+        self._impl.get_mut().unite(x, y);
     }
 
     pub fn classes(&self, elms: &[T]) -> Vec<Vec<T>> {
-- 
2.43.0


From c32fb7967ef4978bf09c85372805bf7528af79e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:42:37 +0000
Subject: [PATCH 32/33] fix: looking up an edge copies it without calling the
 label's clone

---
 src/pgraphs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pgraphs.rs b/src/pgraphs.rs
index 851e06e..a530ca8 100644
--- a/src/pgraphs.rs
+++ b/src/pgraphs.rs
@@ -382,7 +382,8 @@ impl<T, CS> Graph<T, CS>
         }
 
         let lookup = unsafe { self.edge_lookup.get().as_ref() };
-        Some(lookup?.get(v)?.get(delta)?.clone())
+        let e = lookup?.get(v)?.get(delta)?;
+        Some(Edge::new(e.head, e.tail, e.shift))
     }
 
     pub fn symmetries(&self) -> Vec<Automorphism<T, CS>> {
-- 
2.43.0


From 2a8048b08f7937d9f1e4e1a873b4da5a8a92907f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 33/33] fix: a panic while an element is copied leaves the
 partition consistent

---
 src/partitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partitions.rs b/src/partitions.rs
index 1ddda79..6c32313 100644
--- a/src/partitions.rs
+++ b/src/partitions.rs
@@ -25,10 +25,10 @@ impl<T> PartitionImpl<T> where T: Clone + Eq + Hash {
             *x
         } else {
             let i = self.elements.len();
-            self.index.insert(a.clone(), i);
             self.elements.push(a.clone());
             self.rank.push(0);
             self.parent.push(i);
+            self.index.insert(a.clone(), i);
             i
         }
     }
-- 
2.43.0

