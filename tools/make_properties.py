#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long text stays reviewable)."""
import json, os
CORE="crates/cglinalg_core/src/"; TR="crates/cglinalg_transform/src/"; NUM="crates/cglinalg_numeric/src/lib.rs"; TRIG="crates/cglinalg_trigonometry/src/lib.rs"
ALLF=[CORE+f for f in ("vector.rs","matrix.rs","point.rs","complex.rs","quaternion.rs","euler.rs","unit.rs","normed.rs","matrix_euler.rs")]+[TR+f for f in ("translation.rs","rotation.rs","scale.rs","shear.rs","reflection.rs","isometry.rs","isometry_ops.rs","similarity.rs","transform.rs","projection.rs")]+[TRIG,NUM]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state:a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
T="The stable tests only exercise compile-time dimension arithmetic; the rest of the suite samples single successful calls, one thread, fixed inputs. "
p("C01","Rendering to a failing output sink reports the error and never panics",
 "Formatting any value of the library (Display or Debug) into an output sink that fails, stalls with a retryable error, accepts only part of the text, or fills up at any point never panics of its own accord: the caller gets the formatting error, and the text the sink accepted is a prefix of the complete rendering. When no fault occurs the complete rendering is delivered and success is returned. A failed rendering has no effect on any later rendering.",
 ["fault_sequences","inputs"],"every renderable type, every format specification, every write call or byte position at which the sink or a component's own formatter can fail",
 T+"They only render into memory, where a write cannot fail.",
 ALLF,[("error propagation inside the fmt implementations",CORE+"vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs, euler.rs, unit.rs; "+TR+"*.rs; "+TRIG)],observe=["core::fmt::Write / std::io::Write sinks supplied by the caller"])
p("C02","Every operation completes without the heap, even when allocation fails",
 "Constructing, reading, combining, comparing, transforming and rendering the library's values needs no dynamic memory: every operation that completes normally also completes, with an identical result, when the process's allocator refuses every request made during the call.",
 ["fault_sequences","inputs"],"every public operation, every scalar type and argument class (including singular, degenerate and special-value arguments), every allocation request refused",
 T+"They run on a working allocator and never count or refuse requests.",
 ALLF,[("inline array storage; by-value results; core-only code",CORE+"vector.rs (struct Vector), matrix.rs (struct Matrix)"),("#![no_std] on the facade crate","src/lib.rs")],observe=["global allocator requests during a call"])
p("C03","A caller's function is called once per component and may panic at any call",
 "Operations that take a caller-supplied function or conversion (component-wise map, fallible component casts, user-defined norms and distances) call it exactly once for each component - for a cast that stops early, never more than once; a norm or distance exactly once - and place each result at its component's position, whatever the result type is, including types with no valid all-zero value and types that own resources. If the function panics at any call, that panic reaches the caller, the function is not called again, every result already produced is released exactly once, no result is ever fabricated, and the source value is unchanged.",
 ["fault_sequences","inputs"],"every such operation on every shape, every result type, every call index at which the function panics or refuses, and re-entrant use of the library from inside the function",
 T+"They map to plain numbers with functions that always return.",
 [CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs"],[("map",CORE+"vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs"),("try_cast",CORE+"vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs"),("apply_norm / apply_metric_distance",CORE+"vector.rs, matrix.rs")],observe=["calls into the caller's closure / conversion / norm", "drops of produced values"])
p("C04","An interrupted in-place update leaves every component old or new",
 "If scalar arithmetic panics at any point inside a compound assignment or an in-place component-wise operation (negate, scale, unscale, normalise, component product, conjugate, transpose, swap, writing a rotation matrix into an existing matrix), the panic reaches the caller and each component of the receiver holds either its value from before the call or the value the completed call would have given it. All other operands are unchanged.",
 ["crash_points","inputs"],"every in-place operation on vectors, points, matrices, complex numbers, quaternions and angles; every scalar-operation index at which the panic occurs",
 T+"They never interrupt an operation.",
 [CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs",TRIG],[("compound assignment operators and *_mut methods write finished component values only",CORE+"vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs")],state=[("receiver components","the value being updated in place","the &mut self operand")],observe=["receiver and operand memory after the panic is caught"])
p("C05","Results do not depend on what other threads are doing",
 "When several threads use the library at the same time, each call returns exactly - bit for bit - what it would have returned if its thread had been alone in the process, for every interleaving down to single machine instructions, and no thread is ever blocked by another. Operands passed by shared reference are not modified, not even temporarily, and all value types can be moved to and shared between threads whenever their scalar type can.",
 ["schedules","inputs"],"2-4 threads, any mix of operations and arguments, any sequence of preemptions at scalar-operation or instruction granularity, with and without another thread being killed by a panic",
 T+"No test starts a thread.",
 ALLF,[("no global, thread-local or interior-mutable state anywhere in the crates","all source files"),("operands taken by shared reference or by value","all source files")],observe=["call results per thread", "operand memory at every preemption point"])
p("C06","Results do not depend on what was computed before or is in progress",
 "The result of a call depends only on its arguments: it is bit-for-bit the same in a fresh process, after any history of other calls (including calls interrupted by a panic or refused), after any number of repetitions of the same call, when it is made from inside another call in progress (from a caller's scalar type or callback), and whatever the clock, the environment variables, the system's random source or the position of the operands in memory happen to be. Making such a nested call does not change the result of the outer call either.",
 ["histories","fault_sequences"],"every operation, every preceding history of operations with related or equal arguments, every point at which a call is interrupted or re-entered",
 T+"Each test is one call or a short fixed sequence whose order never varies.",
 ALLF,[("no memoised, static or thread-local state; default floating-point environment is never changed","all source files")],observe=["call results in fresh and used processes"])
p("C07","Every operation finishes, and panics only where documented",
 "Every operation finishes within a fixed bound of scalar operations, and without panicking, whatever values - NaN, infinities, zeros, subnormal or overflowing results - its arguments hold or its arithmetic produces at any intermediate step. The only panics are those of operations that have no valid answer: inverting a non-invertible value with the non-optional inverse, transforming a point to infinity with a general transformation, the quaternion arctangent at its pole, an out-of-range index, an impossible unchecked cast, an integer clamped to an empty range, and integer division by zero.",
 ["inputs","fault_sequences"],"every operation; every special-value combination of arguments; every intermediate step at which the arithmetic degenerates",
 T+"They use ordinary values; no test feeds an abnormal intermediate result or bounds the work.",
 ALLF,[("closed-form, branch-bounded algorithms; Option results for partial functions",CORE+"matrix.rs, quaternion.rs, complex.rs"),("logarithmic powering loops",CORE+"complex.rs (powu, powi)"),("remainder-based angle normalisation",TRIG)],observe=["scalar operations executed per call", "panics", "CPU time per call"])
p("C08","Histories of in-place edits behave like edits of one flat array",
 "After any history of in-place edits - single elements, ranges, columns, named coordinates, array, tuple and pointer views, compound assignments, in-place negate, scale, normalise, component product, conjugate, transpose, row, column and element swaps, in-place inverses - a vector, point, matrix, complex number, quaternion, angle or transformation of any size holds exactly what a plain array of components edited by the same history would hold, in the documented component order (columns first). Every way of reading it (indexing, ranges, slices, arrays, tuples, named coordinates, swizzles, rows, columns, the diagonal, equality) reports that same content, and each in-place edit agrees with its value-returning counterpart.",
 ["histories","fault_sequences"],"every shape and component type; every sequence of edits and reads, with edits refused or interrupted in between",
 T+"They check one view or one edit at a time on fixed values, never a sequence through different views.",
 [CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs",CORE+"coordinates.rs",TR+"transform.rs",TR+"isometry.rs",TR+"similarity.rs",TR+"rotation.rs",TR+"translation.rs"],[("pointer-cast views over one repr(C)/transparent array",CORE+"coordinates.rs, vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs"),("compound assignment and *_mut implementations",CORE+"*.rs")],state=[("component array","the single storage all views alias","data / coords fields")],observe=["every read view after every edit"])
p("C09","A refused request changes nothing",
 "A request that cannot be honoured - an index, range, row, column or element position outside the value, normalising a value at or below the given threshold, casting a component that does not fit, inverting a singular value with the optional inverse, leaving homogeneous coordinates at infinity - is always refused (by a panic for positions, by an empty result for the others) and never answered with a wrong element, and it leaves the value and every other value bit-for-bit as they were, so that later operations behave as if it had never been made. A request that can be honoured is never refused.",
 ["inputs","histories","fault_sequences"],"every operation with a refusal path, every shape, every invalid position including the extremes of the index type, at any point of a history",
 T+"They check a few out-of-range indexes with should_panic, which cannot look at the value afterwards.",
 [CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs",CORE+"unit.rs",TR+"transform.rs",NUM],[("bounds-checked indexing and swaps",CORE+"vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs"),("threshold tests before any write in try_normalize_mut",CORE+"vector.rs, matrix.rs, point.rs, complex.rs, quaternion.rs"),("Option-returning try_cast, try_inverse, from_homogeneous, inverse_apply_*",CORE+"*.rs; "+TR+"transform.rs")],observe=["receiver memory before and after the refusal"])
# ---- pure-function properties: not decided by this technique
PURE="Needs all inputs, not a sample; "+T
def q(id,title,st,files,mech,over=("inputs",)):
    p(id,title,st,list(over),"all argument values of every operation named",PURE,files,mech)
q("C10","Vectors, points and matrices obey the linear-algebra axioms","Addition, subtraction, scaling, negation, dot, cross and matrix products of vectors, points and matrices satisfy the vector-space and matrix-ring identities, exactly for integers and within rounding for floats, and all by-value/by-reference spellings agree.",[CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs"],[("operator implementations",CORE+"vector.rs, matrix.rs, point.rs")])
q("C11","Determinant, trace, transpose and inverse are mutually consistent","A square matrix multiplied by its inverse is the identity within rounding, an inverse is offered exactly when the determinant is non-zero, determinants are multiplicative, and transposition reverses products.",[CORE+"matrix.rs"],[("determinant / try_inverse / transpose",CORE+"matrix.rs")])
q("C12","All rotation representations describe the same rotation","Axis-angle, quaternion, Euler-angle, matrix and rotation-type constructions of one rotation act identically on every vector, convert into one another, and are orthonormal with determinant one.",[CORE+"quaternion.rs",CORE+"matrix.rs",CORE+"euler.rs",CORE+"matrix_euler.rs",TR+"rotation.rs"],[("from_axis_angle, from_euler_angles, to_matrix, conversions",CORE+"quaternion.rs, euler.rs; "+TR+"rotation.rs")])
q("C13","Transformations compose, invert and convert to matrices consistently","For every transformation type, composing then applying equals applying in turn, the inverse undoes it, and its affine matrix acts the same on points and vectors.",[TR+f for f in ("translation.rs","rotation.rs","scale.rs","shear.rs","reflection.rs","isometry.rs","isometry_ops.rs","similarity.rs","transform.rs")],[("Mul, inverse, to_affine_matrix, apply_*",TR+"*.rs")])
q("C14","Projections map the view volume to the canonical cube and back","Perspective and orthographic projections send the corners of the view volume to the corners of the clip cube, and unprojecting undoes projecting inside it.",[TR+"projection.rs",CORE+"matrix.rs"],[("project_point / unproject_point",TR+"projection.rs")])
q("C15","Look-at constructions give the documented handed camera frame","Each look-to/look-at constructor places the eye at the origin, maps the gaze direction onto the documented axis with the documented handedness, and its _inv form is its inverse.",[CORE+"matrix.rs",CORE+"quaternion.rs",TR+"rotation.rs",TR+"isometry.rs",TR+"similarity.rs"],[("look_to_*, look_at_*",CORE+"matrix.rs")])
q("C16","Angles convert, normalise and evaluate consistently in both units","Degrees and radians of one angle convert into each other, give the same trigonometric values, and normalise into the documented half-open ranges.",[TRIG],[("Angle",TRIG)])
q("C17","Norms and distances satisfy the norm axioms","Every norm is non-negative, zero only at zero, absolutely homogeneous and subadditive, each metric is the norm of the difference, and normalising gives norm one.",[CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs",CORE+"normed.rs",CORE+"unit.rs"],[("Norm / Normed implementations",CORE+"*.rs")])
q("C18","Complex and quaternion algebra and elementary functions are correct","Complex numbers form a field and quaternions a division ring; exp, ln, powers, roots and (inverse) trigonometric and hyperbolic functions satisfy their defining identities on the principal branch.",[CORE+"complex.rs",CORE+"quaternion.rs"],[("operators, exp, ln, powi, powf, sqrt, sin ... atanh",CORE+"complex.rs, quaternion.rs")])
q("C19","Approximate comparisons implement their stated tolerances","Absolute-, relative- and ulps-based comparisons of every type hold exactly when every component comparison holds at its tolerance, and the reported differences match.",ALLF,[("approx_cmp trait implementations","all source files")])
q("C20","Numeric casts succeed exactly when the value is representable","A component-wise cast gives the converted value when every component converts and nothing otherwise, in agreement with the scalar conversion.",[NUM,CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs"],[("cast / try_cast",NUM)])
q("C21","Ill-dimensioned programs do not compile; well-dimensioned ones do","Operations on mismatched shapes (products, extensions, contractions, transforms) are rejected at compile time and every matching combination is accepted with the right result shape.",[CORE+"constraint.rs"],[("ShapeConstraint, DimMul, CanMultiply ...",CORE+"constraint.rs")],over=("programs",))
q("C22","Memory layout matches the documented contiguous column-major order","Each type occupies exactly its components, contiguously and in the documented order, so that pointers can be handed to graphics APIs.",[CORE+"vector.rs",CORE+"matrix.rs",CORE+"point.rs",CORE+"complex.rs",CORE+"quaternion.rs"],[("repr(C) / repr(transparent)",CORE+"*.rs")])
q("C23","The crates build and behave alike in every feature configuration","With and without the standard library and on every supported scalar type the public API exists and gives the same results.",["src/lib.rs",NUM],[("#![no_std], libm-backed num-traits","src/lib.rs, Cargo.toml")],over=("configurations",))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
