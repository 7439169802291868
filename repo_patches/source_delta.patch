From 104c785da9838dc41882b38cca6d98bf27ccbfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 01/42] fix: on_error of a default schema must not swallow
 exceptions which are not validation errors

---
 src/validators/with_default.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..8a9b216 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -164,6 +164,8 @@ impl Validator for WithDefaultValidator {
                 Ok(v) => Ok(v),
                 Err(e) => match e {
                     ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    // not a validation failure: an exception which must reach the caller
+                    ValError::InternalErr(_) => Err(e),
                     e => match self.on_error {
                         OnError::Raise => Err(e),
                         OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-- 
2.43.0


From 864d6c09eddb817df7c633195ef75e2fa628ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:13 +0000
Subject: [PATCH 02/42] fix: an invalid default with validate_default and
 on_error recursed without bound

---
 src/validators/with_default.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8a9b216..601489a 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -191,8 +191,10 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // not `self.validate`: a default which is itself invalid must not be replaced by the default again
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
+                        Err(ValError::LineErrors(_)) if self.omit_on_error() => Err(ValError::Omit),
                         Err(e) => {
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
-- 
2.43.0


From 7db1b8df2a384c1d9bb44a2ae93350d32f12ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:13 +0000
Subject: [PATCH 03/42] fix: PydanticUndefined as input of a default schema
 without default panicked

---
 src/validators/with_default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 601489a..768943b 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -157,7 +157,7 @@ impl Validator for WithDefaultValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
+        if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) && self.has_default() {
             Ok(self.default_value(py, None::<usize>, state)?.unwrap())
         } else {
             match self.validator.validate(py, input, state) {
-- 
2.43.0


From 9c1570c93ee8284cfe7134f102874e4b3270a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:17 +0000
Subject: [PATCH 04/42] fix: a recursion guard refused for depth left its entry
 and depth behind

---
 src/recursion_guard.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..56f3e83 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // no guard is returned, so nothing else would release this entry
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
@@ -101,10 +103,13 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        // on failure the depth must stay as it is: no guard is returned which would decrease it again
+        if self.depth >= RECURSION_GUARD_LIMIT {
+            true
+        } else {
+            self.depth += 1;
+            false
+        }
     }
 
     #[must_use]
-- 
2.43.0


From f84a99481e2fbc8101df73df2e30d6d7adfa4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:17 +0000
Subject: [PATCH 05/42] fix: a smart union left by an omit signal must restore
 the exactness it found

---
 src/validators/union.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..657f02c 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -161,7 +161,12 @@ impl UnionValidator {
                         errors.push(choice, label.as_deref(), lines);
                     }
                 }
-                otherwise => return otherwise,
+                otherwise => {
+                    // e.g. an omit signal, after which validation may go on in the enclosing container
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    return otherwise;
+                }
             }
         }
 
-- 
2.43.0


From 3eab3371673384c92e7bc0a944e3748802f662af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 06/42] fix: serializer warnings were reported again by every
 later handler call and iterator step

---
 src/serializers/extra.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 82c4323..82e0d0b 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -251,7 +251,8 @@ impl ExtraOwned {
     pub fn new(extra: &Extra) -> Self {
         Self {
             mode: extra.mode.clone(),
-            warnings: extra.warnings.clone(),
+            // what was collected so far is reported by the call it was collected for, not by this deferred part
+            warnings: CollectWarnings::new(extra.warnings.mode),
             by_alias: extra.by_alias,
             exclude_unset: extra.exclude_unset,
             exclude_defaults: extra.exclude_defaults,
@@ -458,7 +459,9 @@ impl CollectWarnings {
         if self.mode == WarningsMode::None {
             return Ok(());
         }
-        let warnings = self.warnings.lock().expect("lock poisoned");
+        // take the warnings, so that none is reported twice, and release the lock, since formatting and
+        // reporting them runs Python code
+        let warnings = std::mem::take(&mut *self.warnings.lock().expect("lock poisoned"));
 
         if warnings.is_empty() {
             return Ok(());
-- 
2.43.0


From 74ffaa282a071b2c3af5369207733edaa4a86a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:41 +0000
Subject: [PATCH 07/42] fix: a handler called again while a call to it was in
 progress raised 'Already borrowed'

---
 src/serializers/type_serializers/function.rs |  2 +-
 src/validators/function.rs                   |  6 ++--
 src/validators/generator.rs                  | 34 +++++++++++++-------
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..b3a61e4 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -492,7 +492,7 @@ impl SerializationCallable {
 impl SerializationCallable {
     #[pyo3(signature = (value, index_key=None))]
     fn __call__(
-        &mut self,
+        &self,
         py: Python,
         value: &Bound<'_, PyAny>,
         index_key: Option<&Bound<'_, PyAny>>,
diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..bc76a61 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -380,7 +380,7 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        state.exactness = handler.borrow_mut().validator.exactness;
+        state.exactness = handler.borrow().validator.exactness();
         result
     }
 
@@ -422,7 +422,7 @@ struct ValidatorCallable {
 impl ValidatorCallable {
     #[pyo3(signature = (input_value, outer_location=None))]
     fn __call__(
-        &mut self,
+        &self,
         py: Python,
         input_value: &Bound<'_, PyAny>,
         outer_location: Option<&Bound<'_, PyAny>>,
@@ -456,7 +456,7 @@ struct AssignmentValidatorCallable {
 impl AssignmentValidatorCallable {
     #[pyo3(signature = (input_value, outer_location=None))]
     fn __call__(
-        &mut self,
+        &self,
         py: Python,
         input_value: &Bound<'_, PyAny>,
         outer_location: Option<&Bound<'_, PyAny>>,
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..3bfd4d2 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -1,5 +1,5 @@
 use std::fmt;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 
 use pyo3::types::{PyDict, PyString};
 use pyo3::{prelude::*, IntoPyObjectExt, PyTraverseError, PyVisit};
@@ -223,8 +223,10 @@ pub struct InternalValidator {
     from_attributes: Option<bool>,
     context: Option<PyObject>,
     self_instance: Option<PyObject>,
+    // the state at creation, each call works on its own copy
     recursion_guard: RecursionState,
-    pub(crate) exactness: Option<Exactness>,
+    // a mutex since python code may call into this while another call is still in progress
+    exactness: Mutex<Option<Exactness>>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
@@ -255,7 +257,7 @@ impl InternalValidator {
             context: extra.context.map(|d| d.clone().unbind()),
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
             recursion_guard: state.recursion_guard.clone(),
-            exactness: state.exactness,
+            exactness: Mutex::new(state.exactness),
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
@@ -263,8 +265,16 @@ impl InternalValidator {
         }
     }
 
+    pub(crate) fn exactness(&self) -> Option<Exactness> {
+        *self.exactness.lock().expect("lock poisoned")
+    }
+
+    fn set_exactness(&self, exactness: Option<Exactness>) {
+        *self.exactness.lock().expect("lock poisoned") = exactness;
+    }
+
     pub fn validate_assignment<'py>(
-        &mut self,
+        &self,
         py: Python<'py>,
         model: &Bound<'py, PyAny>,
         field_name: &str,
@@ -283,8 +293,9 @@ impl InternalValidator {
             by_alias: None,
             by_name: None,
         };
-        let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
-        state.exactness = self.exactness;
+        let mut recursion_guard = self.recursion_guard.clone();
+        let mut state = ValidationState::new(extra, &mut recursion_guard, false.into());
+        state.exactness = self.exactness();
         let result = self
             .validator
             .validate_assignment(py, model, field_name, field_value, &mut state)
@@ -299,12 +310,12 @@ impl InternalValidator {
                     self.validation_error_cause,
                 )
             });
-        self.exactness = state.exactness;
+        self.set_exactness(state.exactness);
         result
     }
 
     pub fn validate<'py>(
-        &mut self,
+        &self,
         py: Python<'py>,
         input: &(impl Input<'py> + ?Sized),
         outer_location: Option<LocItem>,
@@ -321,8 +332,9 @@ impl InternalValidator {
             by_alias: None,
             by_name: None,
         };
-        let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
-        state.exactness = self.exactness;
+        let mut recursion_guard = self.recursion_guard.clone();
+        let mut state = ValidationState::new(extra, &mut recursion_guard, false.into());
+        state.exactness = self.exactness();
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -334,7 +346,7 @@ impl InternalValidator {
                 self.validation_error_cause,
             )
         });
-        self.exactness = state.exactness;
+        self.set_exactness(state.exactness);
         result
     }
 }
-- 
2.43.0


From d3f9bc6093d552ee25f67752914a5d9161869a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:41 +0000
Subject: [PATCH 08/42] fix: by_alias and by_name were lost in handlers of wrap
 validators and in generators

---
 src/validators/generator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 3bfd4d2..a8b311c 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -231,6 +231,8 @@ pub struct InternalValidator {
     hide_input_in_errors: bool,
     validation_error_cause: bool,
     cache_str: jiter::StringCacheMode,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
 }
 
 impl fmt::Debug for InternalValidator {
@@ -262,6 +264,8 @@ impl InternalValidator {
             hide_input_in_errors,
             validation_error_cause,
             cache_str: extra.cache_str,
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
         }
     }
 
@@ -290,8 +294,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut recursion_guard = self.recursion_guard.clone();
         let mut state = ValidationState::new(extra, &mut recursion_guard, false.into());
@@ -329,8 +333,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut recursion_guard = self.recursion_guard.clone();
         let mut state = ValidationState::new(extra, &mut recursion_guard, false.into());
-- 
2.43.0


From d425d80663adbee0f6edcb8f47dfed34a78b7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 09/42] fix: a dict or set mutated by user code while it is
 being iterated over panicked

---
 src/input/input_python.rs                     | 12 ++++---
 src/serializers/fields.rs                     |  6 ++--
 src/serializers/infer.rs                      | 15 +++++----
 src/serializers/type_serializers/dict.rs      |  8 +++--
 .../type_serializers/set_frozenset.rs         | 11 ++++---
 src/tools.rs                                  | 33 ++++++++++++++++++-
 6 files changed, 62 insertions(+), 23 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..2bb89fe 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -14,7 +14,7 @@ use pyo3::PyTypeInfo;
 use speedate::MicrosecondsPrecisionOverflowBehavior;
 
 use crate::errors::{ErrorType, ErrorTypeDefaults, InputValue, LocItem, ValError, ValResult};
-use crate::tools::{extract_i64, safe_repr};
+use crate::tools::{checked_dict_iter, extract_i64, safe_repr};
 use crate::validators::complex::string_to_complex;
 use crate::validators::decimal::{create_decimal, get_decimal_type};
 use crate::validators::Exactness;
@@ -811,7 +811,7 @@ impl<'py> KeywordArgs<'py> for PyKwargs<'py> {
     }
 
     fn iter(&self) -> impl Iterator<Item = ValResult<(Self::Key<'_>, Self::Item<'_>)>> {
-        self.0.iter().map(Ok)
+        checked_dict_iter(&self.0).map(|item| item.map_err(Into::into))
     }
 }
 
@@ -853,7 +853,9 @@ impl<'py> ValidatedDict<'py> for GenericPyMapping<'_, 'py> {
         consumer: impl ConsumeIterator<ValResult<(Self::Key<'a>, Self::Item<'a>)>, Output = R>,
     ) -> ValResult<R> {
         match self {
-            Self::Dict(dict) => Ok(consumer.consume_iterator(dict.iter().map(Ok))),
+            Self::Dict(dict) => {
+                Ok(consumer.consume_iterator(checked_dict_iter(dict).map(|item| item.map_err(Into::into))))
+            }
             Self::Mapping(mapping) => Ok(consumer.consume_iterator(iterate_mapping_items(mapping)?)),
             Self::GetAttr(obj, _) => Ok(consumer.consume_iterator(iterate_attributes(obj)?)),
         }
@@ -929,7 +931,7 @@ impl<'py> PySequenceIterable<'_, 'py> {
         match self {
             PySequenceIterable::List(iter) => iter.iter().map(Ok).try_for_each(f),
             PySequenceIterable::Tuple(iter) => iter.iter().map(Ok).try_for_each(f),
-            PySequenceIterable::Set(iter) => iter.iter().map(Ok).try_for_each(f),
+            PySequenceIterable::Set(iter) => iter.try_iter()?.try_for_each(f),
             PySequenceIterable::FrozenSet(iter) => iter.iter().map(Ok).try_for_each(f),
             PySequenceIterable::Iterator(mut iter) => iter.try_for_each(f),
         }
@@ -941,7 +943,7 @@ impl<'py> PySequenceIterable<'_, 'py> {
         match self {
             PySequenceIterable::List(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
             PySequenceIterable::Tuple(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
-            PySequenceIterable::Set(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
+            PySequenceIterable::Set(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
             PySequenceIterable::FrozenSet(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
             PySequenceIterable::Iterator(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
         }
diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..6f471a9 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -363,7 +363,8 @@ impl TypeSerializer for GeneralFieldsSerializer {
 
         // this is used to include `__pydantic_extra__` in serialization on models
         if let Some(extra_dict) = extra_dict {
-            for (key, value) in extra_dict {
+            for item in dict_items(&extra_dict) {
+                let (key, value) = item?;
                 if extra.exclude_none && value.is_none() {
                     continue;
                 }
@@ -437,7 +438,8 @@ impl TypeSerializer for GeneralFieldsSerializer {
 
         // this is used to include `__pydantic_extra__` in serialization on models
         if let Some(extra_dict) = extra_dict {
-            for (key, value) in extra_dict {
+            for item in dict_items(&extra_dict) {
+                let (key, value) = item.map_err(py_err_se_err)?;
                 if extra.exclude_none && value.is_none() {
                     continue;
                 }
diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 33f53b2..cbf2539 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -12,7 +12,7 @@ use serde::ser::{Error, Serialize, SerializeMap, SerializeSeq, Serializer};
 
 use crate::input::{EitherTimedelta, Int};
 use crate::serializers::type_serializers;
-use crate::tools::{extract_int, py_err, safe_repr};
+use crate::tools::{checked_dict_iter, extract_int, py_err, safe_repr};
 use crate::url::{PyMultiHostUrl, PyUrl};
 
 use super::config::InfNanMode;
@@ -63,8 +63,8 @@ pub(crate) fn infer_to_python_known(
         ($t:ty) => {
             value
                 .downcast::<$t>()?
-                .iter()
-                .map(|v| infer_to_python(&v, None, None, extra))
+                .try_iter()?
+                .map(|v| infer_to_python(&v?, None, None, extra))
                 .collect::<PyResult<Vec<PyObject>>>()?
         };
     }
@@ -163,7 +163,7 @@ pub(crate) fn infer_to_python_known(
             }
             ObType::Dict => {
                 let dict = value.downcast::<PyDict>()?;
-                serialize_pairs_python(py, dict.iter().map(Ok), include, exclude, extra, |k| {
+                serialize_pairs_python(py, checked_dict_iter(dict), include, exclude, extra, |k| {
                     Ok(PyString::new(py, &infer_json_key(&k, extra)?).into_any())
                 })?
             }
@@ -265,7 +265,7 @@ pub(crate) fn infer_to_python_known(
             }
             ObType::Dict => {
                 let dict = value.downcast::<PyDict>()?;
-                serialize_pairs_python(py, dict.iter().map(Ok), include, exclude, extra, Ok)?
+                serialize_pairs_python(py, checked_dict_iter(dict), include, exclude, extra, Ok)?
             }
             ObType::PydanticSerializable => serialize_with_serializer()?,
             ObType::Dataclass => serialize_pairs_python(py, any_dataclass_iter(value)?.0, include, exclude, extra, Ok)?,
@@ -379,7 +379,8 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
         ($t:ty) => {{
             let py_seq = value.downcast::<$t>().map_err(py_err_se_err)?;
             let mut seq = serializer.serialize_seq(Some(py_seq.len()))?;
-            for element in py_seq.iter() {
+            for element in py_seq.try_iter().map_err(py_err_se_err)? {
+                let element = element.map_err(py_err_se_err)?;
                 let item_serializer = SerializeInfer::new(&element, include, exclude, extra);
                 seq.serialize_element(&item_serializer)?
             }
@@ -441,7 +442,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
         }
         ObType::Dict => {
             let dict = value.downcast::<PyDict>().map_err(py_err_se_err)?;
-            serialize_pairs_json(dict.iter().map(Ok), dict.len(), serializer, include, exclude, extra)
+            serialize_pairs_json(checked_dict_iter(dict), dict.len(), serializer, include, exclude, extra)
         }
         ObType::List => serialize_seq_filter!(PyList),
         ObType::Tuple => serialize_seq_filter!(PyTuple),
diff --git a/src/serializers/type_serializers/dict.rs b/src/serializers/type_serializers/dict.rs
index feb4509..fda7c5f 100644
--- a/src/serializers/type_serializers/dict.rs
+++ b/src/serializers/type_serializers/dict.rs
@@ -8,7 +8,7 @@ use pyo3::IntoPyObjectExt;
 use serde::ser::SerializeMap;
 
 use crate::definitions::DefinitionsBuilder;
-use crate::tools::SchemaDict;
+use crate::tools::{checked_dict_iter, SchemaDict};
 
 use super::any::AnySerializer;
 use super::{
@@ -85,7 +85,8 @@ impl TypeSerializer for DictSerializer {
                 let value_serializer = self.value_serializer.as_ref();
 
                 let new_dict = PyDict::new(py);
-                for (key, value) in py_dict.iter() {
+                for item in checked_dict_iter(py_dict) {
+                    let (key, value) = item?;
                     let op_next = self.filter.key_filter(&key, include, exclude)?;
                     if let Some((next_include, next_exclude)) = op_next {
                         let key = match extra.mode {
@@ -124,7 +125,8 @@ impl TypeSerializer for DictSerializer {
                 let key_serializer = self.key_serializer.as_ref();
                 let value_serializer = self.value_serializer.as_ref();
 
-                for (key, value) in py_dict.iter() {
+                for item in checked_dict_iter(py_dict) {
+                    let (key, value) = item.map_err(py_err_se_err)?;
                     let op_next = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                     if let Some((next_include, next_exclude)) = op_next {
                         let key = key_serializer.json_key(&key, extra).map_err(py_err_se_err)?;
diff --git a/src/serializers/type_serializers/set_frozenset.rs b/src/serializers/type_serializers/set_frozenset.rs
index 08f54c8..43bf5f1 100644
--- a/src/serializers/type_serializers/set_frozenset.rs
+++ b/src/serializers/type_serializers/set_frozenset.rs
@@ -11,8 +11,8 @@ use crate::tools::SchemaDict;
 
 use super::any::AnySerializer;
 use super::{
-    infer_serialize, infer_to_python, BuildSerializer, CombinedSerializer, Extra, PydanticSerializer, SerMode,
-    TypeSerializer,
+    infer_serialize, infer_to_python, py_err_se_err, BuildSerializer, CombinedSerializer, Extra, PydanticSerializer,
+    SerMode, TypeSerializer,
 };
 
 macro_rules! build_serializer {
@@ -61,8 +61,8 @@ macro_rules! build_serializer {
                         let item_serializer = self.item_serializer.as_ref();
 
                         let mut items = Vec::with_capacity(py_set.len());
-                        for element in py_set.iter() {
-                            items.push(item_serializer.to_python(&element, include, exclude, extra)?);
+                        for element in py_set.try_iter()? {
+                            items.push(item_serializer.to_python(&element?, include, exclude, extra)?);
                         }
                         match extra.mode {
                             SerMode::Json => Ok(PyList::new(py, items)?.into()),
@@ -93,7 +93,8 @@ macro_rules! build_serializer {
                         let mut seq = serializer.serialize_seq(Some(py_set.len()))?;
                         let item_serializer = self.item_serializer.as_ref();
 
-                        for value in py_set.iter() {
+                        for value in py_set.try_iter().map_err(py_err_se_err)? {
+                            let value = value.map_err(py_err_se_err)?;
                             let item_serialize =
                                 PydanticSerializer::new(&value, item_serializer, include, exclude, extra);
                             seq.serialize_element(&item_serialize)?;
diff --git a/src/tools.rs b/src/tools.rs
index 96146d3..91511dc 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -2,7 +2,7 @@ use core::fmt;
 
 use num_bigint::BigInt;
 
-use pyo3::exceptions::PyKeyError;
+use pyo3::exceptions::{PyKeyError, PyRuntimeError};
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyString};
 use pyo3::{intern, FromPyObject};
@@ -199,3 +199,34 @@ pub fn write_truncated_to_limited_bytes<F: fmt::Write>(f: &mut F, val: &str, max
         write!(f, "{val}")
     }
 }
+
+/// Iterate over a dict while arbitrary python code might run between the steps.
+///
+/// PyO3's dict iterator panics if the dict is mutated while it is being iterated over, this iterator yields the
+/// `RuntimeError` which python would raise instead.
+pub(crate) fn checked_dict_iter<'py>(
+    dict: &Bound<'py, PyDict>,
+) -> impl Iterator<Item = PyResult<(Bound<'py, PyAny>, Bound<'py, PyAny>)>> {
+    let dict = dict.clone();
+    let len = dict.len();
+    let mut iter = dict.iter();
+    let mut yielded = 0;
+    let mut failed = false;
+    std::iter::from_fn(move || {
+        if failed {
+            return None;
+        }
+        let error = if dict.len() != len {
+            "dictionary changed size during iteration"
+        } else {
+            let item = iter.next()?;
+            if yielded < len {
+                yielded += 1;
+                return Some(Ok(item));
+            }
+            "dictionary keys changed during iteration"
+        };
+        failed = true;
+        Some(Err(PyRuntimeError::new_err(error)))
+    })
+}
-- 
2.43.0


From 1aabf313ef4ef1d6e9670bfbe55bf91c0cadabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 10/42] fix: a generator schema panicked on an iterable whose
 second __iter__ call fails

---
 src/input/input_python.rs | 7 +++----
 src/input/return_enums.rs | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 2bb89fe..71cb167 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -487,10 +487,9 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
     }
 
     fn validate_iter(&self) -> ValResult<GenericIterator<'static>> {
-        if self.try_iter().is_ok() {
-            Ok(self.into())
-        } else {
-            Err(ValError::new(ErrorTypeDefaults::IterableType, self))
+        match self.try_iter() {
+            Ok(iter) => Ok(GenericIterator::from_py_iter(self, iter)),
+            Err(_) => Err(ValError::new(ErrorTypeDefaults::IterableType, self)),
         }
     }
 
diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 6ac3824..56ce46f 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -396,11 +396,11 @@ impl<'data> From<JsonArray<'data>> for GenericIterator<'data> {
     }
 }
 
-impl From<&Bound<'_, PyAny>> for GenericIterator<'_> {
-    fn from(obj: &Bound<'_, PyAny>) -> Self {
+impl GenericIterator<'_> {
+    pub(crate) fn from_py_iter(obj: &Bound<'_, PyAny>, iter: Bound<'_, PyIterator>) -> Self {
         let py_iter = GenericPyIterator {
             obj: obj.clone().into(),
-            iter: obj.try_iter().unwrap().into(),
+            iter: iter.into(),
             index: 0,
         };
         Self::PyIterator(py_iter)
-- 
2.43.0


From 9473297168ab0677e449704b8f304301c93e03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 11/42] fix: a failing first import of copy or uuid panicked

---
 src/validators/uuid.rs         | 2 +-
 src/validators/with_default.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validators/uuid.rs b/src/validators/uuid.rs
index 9ad4eb3..5825b92 100644
--- a/src/validators/uuid.rs
+++ b/src/validators/uuid.rs
@@ -32,7 +32,7 @@ fn import_type(py: Python, module: &str, attr: &str) -> PyResult<Py<PyType>> {
 
 fn get_uuid_type(py: Python) -> PyResult<&Bound<'_, PyType>> {
     Ok(UUID_TYPE
-        .get_or_init(py, || import_type(py, "uuid", "UUID").unwrap())
+        .get_or_try_init(py, || import_type(py, "uuid", "UUID"))?
         .bind(py))
 }
 
diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 768943b..8f32f58 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -185,7 +185,7 @@ impl Validator for WithDefaultValidator {
         match self.default.default_value(py, state.extra().data.as_ref())? {
             Some(stored_dft) => {
                 let dft: Py<PyAny> = if self.copy_default {
-                    let deepcopy_func = COPY_DEEPCOPY.get_or_init(py, || get_deepcopy(py).unwrap());
+                    let deepcopy_func = COPY_DEEPCOPY.get_or_try_init(py, || get_deepcopy(py))?;
                     deepcopy_func.call1(py, (&stored_dft,))?
                 } else {
                     stored_dft
-- 
2.43.0


From c077c1e2665608bf487d478be90c6accc026bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 12/42] fix: python objects in use could be garbage collected
 because handlers and generators visited them a second time

---
 src/validators/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index a8b311c..86cc735 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -355,8 +355,9 @@ impl InternalValidator {
     }
 }
 
+// `validator` is shared with the `SchemaValidator` which visits it: python must not see the same reference twice, else
+// it takes objects for garbage which are still in use
 impl_py_gc_traverse!(InternalValidator {
-    validator,
     data,
     context,
     self_instance
-- 
2.43.0


From 81f9a40dcd37b17c6e7e3acf73f095487a461cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:48 +0000
Subject: [PATCH 13/42] fix: handlers and lazy iterators which outlive their
 validator or serializer panicked for want of its definitions

---
 src/definitions.rs                            | 162 ++++++++++++++++--
 src/serializers/infer.rs                      |   2 +-
 src/serializers/mod.rs                        |   2 +-
 src/serializers/type_serializers/function.rs  |  22 +--
 src/serializers/type_serializers/generator.rs |  19 +-
 src/validators/function.rs                    |  11 +-
 src/validators/generator.rs                   |  20 ++-
 src/validators/mod.rs                         |   5 +-
 8 files changed, 188 insertions(+), 55 deletions(-)

diff --git a/src/definitions.rs b/src/definitions.rs
index 6fefb8c..699d529 100644
--- a/src/definitions.rs
+++ b/src/definitions.rs
@@ -7,12 +7,14 @@ use std::{
     borrow::Borrow,
     collections::hash_map::Entry,
     fmt::Debug,
+    ops::Deref,
     sync::{
         atomic::{AtomicBool, Ordering},
         Arc, OnceLock, Weak,
     },
 };
 
+use pyo3::types::{PyWeakrefMethods, PyWeakrefReference};
 use pyo3::{prelude::*, PyTraverseError, PyVisit};
 
 use ahash::AHashMap;
@@ -29,7 +31,130 @@ use crate::{build_tools::py_schema_err, py_gc::PyGcTraverse};
 /// They get indexed by a ReferenceId, which are integer identifiers
 /// that are handed out and managed by DefinitionsBuilder when the Schema{Validator,Serializer}
 /// gets build.
-pub struct Definitions<T>(AHashMap<Arc<String>, Definition<T>>);
+pub struct Definitions<T> {
+    map: AHashMap<Arc<String>, Definition<T>>,
+    // owns the definitions as far as python is concerned, None if there are none
+    gc_owner: Option<Py<GcOwner>>,
+    gc_owner_ref: GcOwnerRef,
+}
+
+/// Filled by `DefinitionsBuilder::finish`, a weak reference since it is used from within the definitions.
+type GcOwnerRef = Arc<OnceLock<Py<PyWeakrefReference>>>;
+
+/// Python object which owns validators / serializers that are referred to from several python objects.
+///
+/// The validators / serializers themselves are in an `Arc`, where python can't tell how many references to them there
+/// are. Thus who refers to them also refers to this object, which is what it has to visit instead of them: else python
+/// sees their references too often or too seldom, and takes objects for garbage which are still in use.
+#[pyclass(module = "pydantic_core._pydantic_core", frozen, weakref)]
+struct GcOwner(Box<dyn PyGcTraverse + Send + Sync>);
+
+#[pymethods]
+impl GcOwner {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.0.py_gc_traverse(&visit)
+    }
+}
+
+impl<T: PyGcTraverse> PyGcTraverse for OnceLock<T> {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self.get() {
+            Some(value) => value.py_gc_traverse(visit),
+            None => Ok(()),
+        }
+    }
+}
+
+/// A part of a validator / serializer which python code can hold on to after the validator / serializer
+/// itself is gone (by way of a handler or of a lazy iterator).
+pub struct Shared<T> {
+    inner: Arc<T>,
+    gc_owner: Py<GcOwner>,
+    definitions: GcOwnerRef,
+}
+
+impl<T: PyGcTraverse + Send + Sync + 'static> Shared<T> {
+    pub fn new(py: Python<'_>, inner: T, definitions: &DefinitionsBuilder<T>) -> PyResult<Self> {
+        let inner = Arc::new(inner);
+        Ok(Self {
+            gc_owner: Py::new(py, GcOwner(Box::new(inner.clone())))?,
+            inner,
+            definitions: definitions.definitions.gc_owner_ref.clone(),
+        })
+    }
+
+    /// To be used while the validator / serializer exists, which it does whenever it is in use.
+    pub fn keep(&self, py: Python<'_>) -> Kept<T> {
+        Kept {
+            inner: self.inner.clone(),
+            gc_owner: Some(self.gc_owner.clone_ref(py)),
+            definitions: self
+                .definitions
+                .get()
+                .and_then(|r| r.bind(py).upgrade())
+                .map(Into::into),
+        }
+    }
+}
+
+impl<T> Deref for Shared<T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        &self.inner
+    }
+}
+
+impl<T: Debug> Debug for Shared<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+impl<T> PyGcTraverse for Shared<T> {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.gc_owner.py_gc_traverse(visit)
+    }
+}
+
+/// `Shared` together with all the definitions it might refer to.
+pub struct Kept<T> {
+    inner: Arc<T>,
+    gc_owner: Option<Py<GcOwner>>,
+    definitions: Option<PyObject>,
+}
+
+impl<T> From<Arc<T>> for Kept<T> {
+    /// For a validator / serializer which does not refer to any python object or definition
+    fn from(inner: Arc<T>) -> Self {
+        Self {
+            inner,
+            gc_owner: None,
+            definitions: None,
+        }
+    }
+}
+
+impl<T> Deref for Kept<T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        &self.inner
+    }
+}
+
+impl<T: Debug> Debug for Kept<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        self.inner.fmt(f)
+    }
+}
+
+impl<T> PyGcTraverse for Kept<T> {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.gc_owner.py_gc_traverse(visit)?;
+        self.definitions.py_gc_traverse(visit)
+    }
+}
 
 struct Definition<T> {
     value: Arc<OnceLock<T>>,
@@ -91,7 +216,7 @@ impl<T: Debug> Debug for Definitions<T> {
         // minor release of pydantic.
         write![f, "["]?;
         let mut first = true;
-        for def in self.0.values() {
+        for def in self.map.values() {
             write![f, "{sep}{def:?}", sep = if first { "" } else { ", " }]?;
             first = false;
         }
@@ -118,14 +243,9 @@ impl<T: PyGcTraverse> PyGcTraverse for DefinitionRef<T> {
     }
 }
 
-impl<T: PyGcTraverse> PyGcTraverse for Definitions<T> {
+impl<T> PyGcTraverse for Definitions<T> {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
-        for value in self.0.values() {
-            if let Some(value) = value.value.get() {
-                value.py_gc_traverse(visit)?;
-            }
-        }
-        Ok(())
+        self.gc_owner.py_gc_traverse(visit)
     }
 }
 
@@ -134,10 +254,14 @@ pub struct DefinitionsBuilder<T> {
     definitions: Definitions<T>,
 }
 
-impl<T: std::fmt::Debug> DefinitionsBuilder<T> {
+impl<T: std::fmt::Debug + PyGcTraverse + Send + Sync + 'static> DefinitionsBuilder<T> {
     pub fn new() -> Self {
         Self {
-            definitions: Definitions(AHashMap::new()),
+            definitions: Definitions {
+                map: AHashMap::new(),
+                gc_owner: None,
+                gc_owner_ref: Arc::new(OnceLock::new()),
+            },
         }
     }
 
@@ -147,7 +271,7 @@ impl<T: std::fmt::Debug> DefinitionsBuilder<T> {
         // Neither is better than the other
         // We opted for the easier outward facing API
         let reference = Arc::new(reference.to_string());
-        let value = match self.definitions.0.entry(reference.clone()) {
+        let value = match self.definitions.map.entry(reference.clone()) {
             Entry::Occupied(entry) => entry.into_mut(),
             Entry::Vacant(entry) => entry.insert(Definition {
                 value: Arc::new(OnceLock::new()),
@@ -164,7 +288,7 @@ impl<T: std::fmt::Debug> DefinitionsBuilder<T> {
     /// Add a definition, returning the ReferenceId that maps to it
     pub fn add_definition(&mut self, reference: String, value: T) -> PyResult<DefinitionRef<T>> {
         let reference = Arc::new(reference);
-        let value = match self.definitions.0.entry(reference.clone()) {
+        let value = match self.definitions.map.entry(reference.clone()) {
             Entry::Occupied(entry) => {
                 let definition = entry.into_mut();
                 match definition.value.set(value) {
@@ -185,12 +309,20 @@ impl<T: std::fmt::Debug> DefinitionsBuilder<T> {
     }
 
     /// Consume this Definitions into a vector of items, indexed by each items ReferenceId
-    pub fn finish(self) -> PyResult<Definitions<T>> {
-        for (reference, def) in &self.definitions.0 {
+    pub fn finish(mut self, py: Python<'_>) -> PyResult<Definitions<T>> {
+        for (reference, def) in &self.definitions.map {
             if def.value.get().is_none() {
                 return py_schema_err!("Definitions error: definition `{}` was never filled", reference);
             }
         }
+        if !self.definitions.map.is_empty() {
+            let values: Vec<_> = self.definitions.map.values().map(|def| def.value.clone()).collect();
+            let gc_owner = Bound::new(py, GcOwner(Box::new(values)))?;
+            let gc_owner_ref = PyWeakrefReference::new(&gc_owner)?;
+            // cannot fail, this is the only place where it is set
+            let _ = self.definitions.gc_owner_ref.set(gc_owner_ref.unbind());
+            self.definitions.gc_owner = Some(gc_owner.unbind());
+        }
         Ok(self.definitions)
     }
 }
diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index cbf2539..5f64deb 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -272,7 +272,7 @@ pub(crate) fn infer_to_python_known(
             ObType::Generator => {
                 let iter = super::type_serializers::generator::SerializationIterator::new(
                     value.downcast()?,
-                    super::type_serializers::any::AnySerializer::get(),
+                    super::type_serializers::any::AnySerializer::get().clone().into(),
                     SchemaFilter::default(),
                     include,
                     exclude,
diff --git a/src/serializers/mod.rs b/src/serializers/mod.rs
index 434b43c..2b2034d 100644
--- a/src/serializers/mod.rs
+++ b/src/serializers/mod.rs
@@ -94,7 +94,7 @@ impl SchemaSerializer {
         let serializer = CombinedSerializer::build(schema.downcast()?, config, &mut definitions_builder)?;
         Ok(Self {
             serializer,
-            definitions: definitions_builder.finish()?,
+            definitions: definitions_builder.finish(schema.py())?,
             expected_json_size: AtomicUsize::new(1024),
             config: SerializationConfig::from_config(config)?,
             py_schema: schema.into(),
diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index b3a61e4..6e176e3 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -1,5 +1,4 @@
 use std::borrow::Cow;
-use std::sync::Arc;
 
 use pyo3::exceptions::{PyAttributeError, PyRecursionError, PyRuntimeError};
 use pyo3::gc::PyVisit;
@@ -10,7 +9,7 @@ use pyo3::PyTraverseError;
 
 use pyo3::types::PyString;
 
-use crate::definitions::DefinitionsBuilder;
+use crate::definitions::{DefinitionsBuilder, Kept, Shared};
 use crate::tools::SchemaDict;
 use crate::tools::{function_name, py_err, py_error_type};
 use crate::{PydanticOmit, PydanticSerializationUnexpectedValue};
@@ -328,11 +327,11 @@ impl BuildSerializer for FunctionWrapSerializerBuilder {
 
 #[derive(Debug)]
 pub struct FunctionWrapSerializer {
-    serializer: Arc<CombinedSerializer>,
+    serializer: Shared<CombinedSerializer>,
     func: PyObject,
     name: String,
     function_name: String,
-    return_serializer: Arc<CombinedSerializer>,
+    return_serializer: Box<CombinedSerializer>,
     when_used: WhenUsed,
     is_field_serializer: bool,
     info_arg: bool,
@@ -370,11 +369,11 @@ impl BuildSerializer for FunctionWrapSerializer {
 
         let name = format!("wrap_function[{function_name}, {}]", serializer.get_name());
         Ok(Self {
-            serializer: Arc::new(serializer),
+            serializer: Shared::new(py, serializer, definitions)?,
             func: function.into(),
             function_name,
             name,
-            return_serializer: Arc::new(return_serializer),
+            return_serializer: Box::new(return_serializer),
             when_used: WhenUsed::new(&ser_schema, WhenUsed::Always)?,
             is_field_serializer,
             info_arg,
@@ -393,7 +392,7 @@ impl FunctionWrapSerializer {
     ) -> PyResult<(bool, PyObject)> {
         let py = value.py();
         if self.when_used.should_use(value, extra) {
-            let serialize = SerializationCallable::new(&self.serializer, include, exclude, extra);
+            let serialize = SerializationCallable::new(py, &self.serializer, include, exclude, extra);
             let v = if self.is_field_serializer {
                 if let Some(model) = extra.model {
                     if self.info_arg {
@@ -418,7 +417,7 @@ impl FunctionWrapSerializer {
     }
 
     fn get_fallback_serializer(&self) -> &CombinedSerializer {
-        self.serializer.as_ref()
+        &self.serializer
     }
 
     fn retry_with_lax_check(&self) -> bool {
@@ -437,7 +436,7 @@ function_type_serializer!(FunctionWrapSerializer);
 #[pyclass(module = "pydantic_core._pydantic_core")]
 #[cfg_attr(debug_assertions, derive(Debug))]
 pub(crate) struct SerializationCallable {
-    serializer: Arc<CombinedSerializer>,
+    serializer: Kept<CombinedSerializer>,
     extra_owned: ExtraOwned,
     filter: AnyFilter,
     include: Option<PyObject>,
@@ -446,13 +445,14 @@ pub(crate) struct SerializationCallable {
 
 impl SerializationCallable {
     pub fn new(
-        serializer: &Arc<CombinedSerializer>,
+        py: Python<'_>,
+        serializer: &Shared<CombinedSerializer>,
         include: Option<&Bound<'_, PyAny>>,
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> Self {
         Self {
-            serializer: serializer.clone(),
+            serializer: serializer.keep(py),
             extra_owned: ExtraOwned::new(extra),
             filter: AnyFilter::new(),
             include: include.map(|v| v.clone().unbind()),
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 0e5050c..1a5a2d2 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -1,5 +1,4 @@
 use std::borrow::Cow;
-use std::sync::Arc;
 
 use pyo3::gc::PyVisit;
 use pyo3::intern;
@@ -10,7 +9,7 @@ use pyo3::PyTraverseError;
 
 use serde::ser::SerializeSeq;
 
-use crate::definitions::DefinitionsBuilder;
+use crate::definitions::{DefinitionsBuilder, Kept, Shared};
 use crate::tools::SchemaDict;
 
 use super::any::AnySerializer;
@@ -21,7 +20,7 @@ use super::{
 
 #[derive(Debug)]
 pub struct GeneratorSerializer {
-    item_serializer: Arc<CombinedSerializer>,
+    item_serializer: Shared<CombinedSerializer>,
     filter: SchemaFilter<usize>,
 }
 
@@ -39,7 +38,7 @@ impl BuildSerializer for GeneratorSerializer {
             None => AnySerializer::build(schema, config, definitions)?,
         };
         Ok(Self {
-            item_serializer: Arc::new(item_serializer),
+            item_serializer: Shared::new(py, item_serializer, definitions)?,
             filter: SchemaFilter::from_schema(schema)?,
         }
         .into())
@@ -61,7 +60,7 @@ impl TypeSerializer for GeneratorSerializer {
                 let py = value.py();
                 match extra.mode {
                     SerMode::Json => {
-                        let item_serializer = self.item_serializer.as_ref();
+                        let item_serializer = &*self.item_serializer;
 
                         let mut items = match value.len() {
                             Ok(len) => Vec::with_capacity(len),
@@ -84,7 +83,7 @@ impl TypeSerializer for GeneratorSerializer {
                     _ => {
                         let iter = SerializationIterator::new(
                             py_iter,
-                            &self.item_serializer,
+                            self.item_serializer.keep(py),
                             self.filter.clone(),
                             include,
                             exclude,
@@ -117,7 +116,7 @@ impl TypeSerializer for GeneratorSerializer {
             Ok(py_iter) => {
                 let len = value.len().ok();
                 let mut seq = serializer.serialize_seq(len)?;
-                let item_serializer = self.item_serializer.as_ref();
+                let item_serializer = &*self.item_serializer;
 
                 for (index, iter_result) in py_iter.clone().enumerate() {
                     let element = iter_result.map_err(py_err_se_err)?;
@@ -156,7 +155,7 @@ pub(crate) struct SerializationIterator {
     iterator: Py<PyIterator>,
     #[pyo3(get)]
     index: usize,
-    item_serializer: Arc<CombinedSerializer>,
+    item_serializer: Kept<CombinedSerializer>,
     extra_owned: ExtraOwned,
     filter: SchemaFilter<usize>,
     include: Option<PyObject>,
@@ -166,7 +165,7 @@ pub(crate) struct SerializationIterator {
 impl SerializationIterator {
     pub fn new(
         py_iter: &Bound<'_, PyIterator>,
-        item_serializer: &Arc<CombinedSerializer>,
+        item_serializer: Kept<CombinedSerializer>,
         filter: SchemaFilter<usize>,
         include: Option<&Bound<'_, PyAny>>,
         exclude: Option<&Bound<'_, PyAny>>,
@@ -175,7 +174,7 @@ impl SerializationIterator {
         Self {
             iterator: py_iter.clone().into(),
             index: 0,
-            item_serializer: item_serializer.clone(),
+            item_serializer,
             extra_owned: ExtraOwned::new(extra),
             filter,
             include: include.map(|v| v.clone().into()),
diff --git a/src/validators/function.rs b/src/validators/function.rs
index bc76a61..438aa22 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -1,10 +1,9 @@
-use std::sync::Arc;
-
 use pyo3::exceptions::{PyAssertionError, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyAny, PyDict, PyString};
 use pyo3::{intern, PyTraverseError, PyVisit};
 
+use crate::definitions::Shared;
 use crate::errors::{
     ErrorType, PydanticCustomError, PydanticKnownError, PydanticOmit, ToErrorValue, ValError, ValResult,
     ValidationError,
@@ -291,7 +290,7 @@ impl Validator for FunctionPlainValidator {
 
 #[derive(Debug)]
 pub struct FunctionWrapValidator {
-    validator: Arc<CombinedValidator>,
+    validator: Shared<CombinedValidator>,
     func: PyObject,
     config: PyObject,
     name: String,
@@ -315,7 +314,7 @@ impl BuildValidator for FunctionWrapValidator {
         let hide_input_in_errors: bool = config.get_as(intern!(py, "hide_input_in_errors"))?.unwrap_or(false);
         let validation_error_cause: bool = config.get_as(intern!(py, "validation_error_cause"))?.unwrap_or(false);
         Ok(Self {
-            validator: Arc::new(validator),
+            validator: Shared::new(py, validator, definitions)?,
             func: function_info.function.clone(),
             config: match config {
                 Some(c) => c.clone().into(),
@@ -371,7 +370,7 @@ impl Validator for FunctionWrapValidator {
         let handler = ValidatorCallable {
             validator: InternalValidator::new(
                 "ValidatorCallable",
-                self.validator.clone(),
+                self.validator.keep(py),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
@@ -395,7 +394,7 @@ impl Validator for FunctionWrapValidator {
         let handler = AssignmentValidatorCallable {
             validator: InternalValidator::new(
                 "AssignmentValidatorCallable",
-                self.validator.clone(),
+                self.validator.keep(py),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 86cc735..3faa901 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -1,9 +1,10 @@
 use std::fmt;
-use std::sync::{Arc, Mutex};
+use std::sync::Mutex;
 
 use pyo3::types::{PyDict, PyString};
 use pyo3::{prelude::*, IntoPyObjectExt, PyTraverseError, PyVisit};
 
+use crate::definitions::{Kept, Shared};
 use crate::errors::{ErrorType, LocItem, ValError, ValResult};
 use crate::input::{BorrowInput, GenericIterator, Input};
 use crate::py_gc::PyGcTraverse;
@@ -16,9 +17,9 @@ use super::{
     BuildValidator, CombinedValidator, DefinitionsBuilder, Exactness, Extra, InputType, ValidationState, Validator,
 };
 
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct GeneratorValidator {
-    item_validator: Option<Arc<CombinedValidator>>,
+    item_validator: Option<Shared<CombinedValidator>>,
     min_length: Option<usize>,
     max_length: Option<usize>,
     name: String,
@@ -34,7 +35,9 @@ impl BuildValidator for GeneratorValidator {
         config: Option<&Bound<'_, PyDict>>,
         definitions: &mut DefinitionsBuilder<CombinedValidator>,
     ) -> PyResult<CombinedValidator> {
-        let item_validator = get_items_schema(schema, config, definitions)?.map(Arc::new);
+        let item_validator = get_items_schema(schema, config, definitions)?
+            .map(|v| Shared::new(schema.py(), v, definitions))
+            .transpose()?;
         let name = match item_validator {
             Some(ref v) => format!("{}[{}]", Self::EXPECTED_TYPE, v.get_name()),
             None => format!("{}[any]", Self::EXPECTED_TYPE),
@@ -73,7 +76,7 @@ impl Validator for GeneratorValidator {
         let validator = self.item_validator.as_ref().map(|v| {
             InternalValidator::new(
                 "ValidatorIterator",
-                v.clone(),
+                v.keep(py),
                 state,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
@@ -216,7 +219,7 @@ impl ValidatorIterator {
 /// mid-validation
 pub struct InternalValidator {
     name: String,
-    validator: Arc<CombinedValidator>,
+    validator: Kept<CombinedValidator>,
     // TODO, do we need data?
     data: Option<Py<PyDict>>,
     strict: Option<bool>,
@@ -244,7 +247,7 @@ impl fmt::Debug for InternalValidator {
 impl InternalValidator {
     pub fn new(
         name: &str,
-        validator: Arc<CombinedValidator>,
+        validator: Kept<CombinedValidator>,
         state: &ValidationState,
         hide_input_in_errors: bool,
         validation_error_cause: bool,
@@ -355,9 +358,8 @@ impl InternalValidator {
     }
 }
 
-// `validator` is shared with the `SchemaValidator` which visits it: python must not see the same reference twice, else
-// it takes objects for garbage which are still in use
 impl_py_gc_traverse!(InternalValidator {
+    validator,
     data,
     context,
     self_instance
diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index cd166b6..28f1d88 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -128,7 +128,7 @@ impl SchemaValidator {
         let mut definitions_builder = DefinitionsBuilder::new();
 
         let validator = build_validator(schema, config, &mut definitions_builder)?;
-        let definitions = definitions_builder.finish()?;
+        let definitions = definitions_builder.finish(py)?;
         let py_schema = schema.clone().unbind();
         let py_config = match config {
             Some(c) if !c.is_empty() => Some(c.clone().into()),
@@ -373,6 +373,7 @@ impl SchemaValidator {
 
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.validator.py_gc_traverse(&visit)?;
+        self.definitions.py_gc_traverse(&visit)?;
         visit.call(&self.py_schema)?;
         if let Some(ref py_config) = self.py_config {
             visit.call(py_config)?;
@@ -499,7 +500,7 @@ impl<'py> SelfValidator<'py> {
             Ok(v) => v,
             Err(err) => return py_schema_err!("Error building self-schema:\n  {}", err),
         };
-        let definitions = definitions_builder.finish()?;
+        let definitions = definitions_builder.finish(py)?;
         Ok(SchemaValidator {
             validator,
             definitions,
-- 
2.43.0


From 62a7e21649687893761a24a6539380bfeaa201d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:32 +0000
Subject: [PATCH 14/42] fix: a custom-error schema replaced exceptions which
 are not validation errors

---
 src/validators/custom_error.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 6759f77..7547582 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -94,9 +94,11 @@ impl Validator for CustomErrorValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        self.validator
-            .validate(py, input, state)
-            .map_err(|_| self.custom_error.as_val_error(input))
+        self.validator.validate(py, input, state).map_err(|error| match error {
+            ValError::LineErrors(_) => self.custom_error.as_val_error(input),
+            // exceptions and signals are not errors about the input, they are not ours to replace
+            other => other,
+        })
     }
 
     fn get_name(&self) -> &str {
-- 
2.43.0


From 871ddc4133920970ea6032c4df1c4c6ad99d52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:44 +0000
Subject: [PATCH 15/42] fix: parts of validators and serializers were invisible
 to the garbage collector

---
 src/errors/value_exception.rs             |  2 ++
 src/serializers/fields.rs                 |  3 ++-
 src/serializers/type_serializers/enum_.rs |  2 +-
 src/validators/custom_error.rs            | 16 +++++++++++++++-
 src/validators/enum_.rs                   |  8 ++++----
 src/validators/model_fields.rs            |  3 ++-
 src/validators/union.rs                   |  8 ++++++--
 7 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index d428dc5..25d023b 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -135,6 +135,8 @@ impl PydanticCustomError {
     }
 }
 
+impl_py_gc_traverse!(PydanticCustomError { context });
+
 #[pyclass(extends=PyValueError, module="pydantic_core._pydantic_core")]
 #[derive(Debug, Clone)]
 pub struct PydanticKnownError {
diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 6f471a9..a9116b5 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -320,7 +320,8 @@ impl GeneralFieldsSerializer {
 
 impl_py_gc_traverse!(GeneralFieldsSerializer {
     fields,
-    computed_fields
+    computed_fields,
+    extra_serializer
 });
 
 impl TypeSerializer for GeneralFieldsSerializer {
diff --git a/src/serializers/type_serializers/enum_.rs b/src/serializers/type_serializers/enum_.rs
index d2dc403..7e264a0 100644
--- a/src/serializers/type_serializers/enum_.rs
+++ b/src/serializers/type_serializers/enum_.rs
@@ -46,7 +46,7 @@ impl BuildSerializer for EnumSerializer {
     }
 }
 
-impl_py_gc_traverse!(EnumSerializer { serializer });
+impl_py_gc_traverse!(EnumSerializer { class, serializer });
 
 impl TypeSerializer for EnumSerializer {
     fn to_python(
diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 7547582..955889b 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -1,11 +1,13 @@
 use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::build_tools::py_schema_err;
 use crate::errors::ToErrorValue;
 use crate::errors::{ErrorType, PydanticCustomError, PydanticKnownError, ValError, ValResult};
 use crate::input::Input;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::validation_state::ValidationState;
@@ -85,7 +87,19 @@ impl BuildValidator for CustomErrorValidator {
     }
 }
 
-impl_py_gc_traverse!(CustomErrorValidator { validator });
+impl PyGcTraverse for CustomError {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        match self {
+            CustomError::KnownError(_) => Ok(()),
+            CustomError::Custom(custom_error) => custom_error.py_gc_traverse(visit),
+        }
+    }
+}
+
+impl_py_gc_traverse!(CustomErrorValidator {
+    validator,
+    custom_error
+});
 
 impl Validator for CustomErrorValidator {
     fn validate<'py>(
diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..62d4d29 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -168,7 +168,7 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 #[derive(Debug, Clone)]
 pub struct PlainEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<PlainEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for PlainEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -202,7 +202,7 @@ impl EnumValidateValue for PlainEnumValidator {
 #[derive(Debug, Clone)]
 pub struct IntEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<IntEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for IntEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -218,7 +218,7 @@ impl EnumValidateValue for IntEnumValidator {
 #[derive(Debug, Clone)]
 pub struct StrEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<StrEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for StrEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
@@ -234,7 +234,7 @@ impl EnumValidateValue for StrEnumValidator {
 #[derive(Debug, Clone)]
 pub struct FloatEnumValidator;
 
-impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, missing });
+impl_py_gc_traverse!(EnumValidator<FloatEnumValidator> { class, lookup, missing });
 
 impl EnumValidateValue for FloatEnumValidator {
     fn validate_value<'py, I: Input<'py> + ?Sized>(
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 10d13d7..8bd6dfa 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -117,7 +117,8 @@ impl BuildValidator for ModelFieldsValidator {
 
 impl_py_gc_traverse!(ModelFieldsValidator {
     fields,
-    extras_validator
+    extras_validator,
+    extras_keys_validator
 });
 
 impl Validator for ModelFieldsValidator {
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 657f02c..40c10d0 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -208,7 +208,7 @@ impl UnionValidator {
 impl PyGcTraverse for UnionValidator {
     fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
         self.choices.iter().try_for_each(|(v, _)| v.py_gc_traverse(visit))?;
-        Ok(())
+        self.custom_error.py_gc_traverse(visit)
     }
 }
 
@@ -346,7 +346,11 @@ impl BuildValidator for TaggedUnionValidator {
     }
 }
 
-impl_py_gc_traverse!(TaggedUnionValidator { discriminator, lookup });
+impl_py_gc_traverse!(TaggedUnionValidator {
+    discriminator,
+    lookup,
+    custom_error
+});
 
 impl Validator for TaggedUnionValidator {
     fn validate<'py>(
-- 
2.43.0


From bf3b7dc7ccec422d8a907b146ed196389ac7799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 16/42] fix: handlers, serialization iterators and info objects
 were invisible to the garbage collector

---
 src/serializers/type_serializers/function.rs  | 14 ++++++++------
 src/serializers/type_serializers/generator.rs |  9 ++++++---
 src/validators/function.rs                    | 14 +++++++++++---
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 6e176e3..5442ce0 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -10,6 +10,7 @@ use pyo3::PyTraverseError;
 use pyo3::types::PyString;
 
 use crate::definitions::{DefinitionsBuilder, Kept, Shared};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 use crate::tools::{function_name, py_err, py_error_type};
 use crate::{PydanticOmit, PydanticSerializationUnexpectedValue};
@@ -459,8 +460,12 @@ impl SerializationCallable {
             exclude: exclude.map(|v| v.clone().unbind()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationCallable {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.serializer.py_gc_traverse(&visit)?;
         if let Some(include) = &self.include {
             visit.call(include)?;
         }
@@ -486,10 +491,7 @@ impl SerializationCallable {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationCallable {
     #[pyo3(signature = (value, index_key=None))]
     fn __call__(
         &self,
@@ -603,7 +605,10 @@ impl SerializationInfo {
             })
         }
     }
+}
 
+#[pymethods]
+impl SerializationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
         if let Some(include) = &self.include {
             visit.call(include)?;
@@ -622,10 +627,7 @@ impl SerializationInfo {
         self.exclude = None;
         self.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationInfo {
     fn mode_is_json(&self) -> bool {
         self._mode.is_json()
     }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index 1a5a2d2..de89ef8 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -10,6 +10,7 @@ use pyo3::PyTraverseError;
 use serde::ser::SerializeSeq;
 
 use crate::definitions::{DefinitionsBuilder, Kept, Shared};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 use super::any::AnySerializer;
@@ -181,8 +182,13 @@ impl SerializationIterator {
             exclude: exclude.map(|v| v.clone().into()),
         }
     }
+}
 
+#[pymethods]
+impl SerializationIterator {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        visit.call(&self.iterator)?;
+        self.item_serializer.py_gc_traverse(&visit)?;
         if let Some(include) = &self.include {
             visit.call(include)?;
         }
@@ -208,10 +214,7 @@ impl SerializationIterator {
         self.extra_owned.fallback = None;
         self.extra_owned.context = None;
     }
-}
 
-#[pymethods]
-impl SerializationIterator {
     fn __iter__(slf: PyRef<'_, Self>) -> PyRef<'_, Self> {
         slf
     }
diff --git a/src/validators/function.rs b/src/validators/function.rs
index 438aa22..3070238 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -477,6 +477,11 @@ impl AssignmentValidatorCallable {
     fn __str__(&self) -> String {
         self.__repr__()
     }
+
+    fn __traverse__(&self, visit: PyVisit) -> Result<(), PyTraverseError> {
+        visit.call(&self.updated_field_value)?;
+        self.validator.py_gc_traverse(&visit)
+    }
 }
 
 macro_rules! py_err_string {
@@ -541,8 +546,14 @@ impl ValidationInfo {
             mode: extra.input_type,
         }
     }
+}
 
+#[pymethods]
+impl ValidationInfo {
     fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        if let Some(data) = &self.data {
+            visit.call(data)?;
+        }
         visit.call(&self.config)?;
         if let Some(context) = &self.context {
             visit.call(context)?;
@@ -553,10 +564,7 @@ impl ValidationInfo {
     fn __clear__(&mut self) {
         self.context = None;
     }
-}
 
-#[pymethods]
-impl ValidationInfo {
     fn __repr__(&self, py: Python) -> PyResult<String> {
         let context = match self.context {
             Some(ref context) => safe_repr(context.bind(py)).to_string(),
-- 
2.43.0


From 71f6f6bc703955593d1c476937611d85e93b5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 17/42] fix: a complex schema panicked on integers beyond 64
 bits

---
 src/input/input_python.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 71cb167..44fcc67 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -656,10 +656,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 0.0,
             ])));
         } else if self.is_exact_instance_of::<PyInt>() {
-            return Ok(ValidationMatch::lax(EitherComplex::Complex([
-                self.extract::<i64>().unwrap() as f64,
-                0.0,
-            ])));
+            // an integer too large for a float is no complex number either
+            if let Ok(real) = self.extract::<f64>() {
+                return Ok(ValidationMatch::lax(EitherComplex::Complex([real, 0.0])));
+            }
         }
         Err(ValError::new(ErrorTypeDefaults::ComplexType, self))
     }
-- 
2.43.0


From 3eaa664c4f5b5625f166ba3f482df8d102d7440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:55 +0000
Subject: [PATCH 18/42] fix: lax-or-strict inside a smart union swallowed
 exceptions which are not validation errors

---
 src/validators/lax_or_strict.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index bc35465..50bddd6 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -3,7 +3,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyDict;
 
 use crate::build_tools::is_strict;
-use crate::errors::ValResult;
+use crate::errors::{ValError, ValResult};
 use crate::input::Input;
 use crate::tools::SchemaDict;
 
@@ -68,8 +68,11 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
-                if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
-                    return Ok(strict_result);
+                match self.strict_validator.validate(py, input, state) {
+                    Ok(strict_result) => return Ok(strict_result),
+                    // not a validation failure: an exception which must reach the caller
+                    Err(e @ ValError::InternalErr(_)) => return Err(e),
+                    Err(_) => (),
                 }
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
-- 
2.43.0


From 41a40c762982d95b2ab3d0718778771d09ede22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:05 +0000
Subject: [PATCH 19/42] fix: validate_assignment on a dataclass dropped
 attributes which are not fields

---
 src/validators/dataclass.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..20a44d8 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -592,7 +592,14 @@ impl Validator for DataclassValidator {
             return Err(ValError::new(ErrorTypeDefaults::FrozenInstance, field_value));
         }
 
-        let new_dict = self.dataclass_to_dict(obj)?;
+        let mut new_dict = self.dataclass_to_dict(obj)?;
+        if !self.slots {
+            // keep the attributes which are not fields: extras, cached properties, ...
+            let old_dict = obj.getattr(intern!(py, "__dict__"))?.downcast_into::<PyDict>()?;
+            let all_attributes = old_dict.copy()?;
+            all_attributes.update(new_dict.as_mapping())?;
+            new_dict = all_attributes;
+        }
 
         new_dict.set_item(field_name, field_value)?;
 
-- 
2.43.0


From bc7b908ed88cb6264dc9cb1480857d83402cf7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:06 +0000
Subject: [PATCH 20/42] fix: max_length of a generator schema was ignored
 without items_schema

---
 src/validators/generator.rs | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 3faa901..3dffa61 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -127,36 +127,36 @@ impl ValidatorIterator {
         macro_rules! next {
             ($iter:ident) => {
                 match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
-                                    let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
-                                            field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
-                                            context: None,
-                                        },
-                                        $iter.input_as_error_value(py),
-                                    );
-                                    return Err(ValidationError::from_val_error(
-                                        py,
-                                        "ValidatorIterator".into_pyobject(py)?.into(),
-                                        InputType::Python,
-                                        val_error,
-                                        None,
-                                        hide_input_in_errors,
-                                        validation_error_cause,
-                                    ));
-                                }
+                    Some((next, index)) => {
+                        if let Some(max_length) = max_length {
+                            if index >= max_length {
+                                let val_error = ValError::new_custom_input(
+                                    ErrorType::TooLong {
+                                        field_type: "Generator".to_string(),
+                                        max_length,
+                                        actual_length: None,
+                                        context: None,
+                                    },
+                                    $iter.input_as_error_value(py),
+                                );
+                                return Err(ValidationError::from_val_error(
+                                    py,
+                                    "ValidatorIterator".into_pyobject(py)?.into(),
+                                    InputType::Python,
+                                    val_error,
+                                    None,
+                                    hide_input_in_errors,
+                                    validation_error_cause,
+                                ));
                             }
-                            validator
+                        }
+                        match validator {
+                            Some(validator) => validator
                                 .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                                .map(Some),
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
+                    }
                     None => {
                         if let Some(min_length) = min_length {
                             if $iter.index() < min_length {
-- 
2.43.0


From d03820ae3e130a7c937deb36b73c38792003d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 21/42] fix: warnings of a failed handler call or iterator step
 were reported by a later one

---
 src/serializers/extra.rs                      | 19 ++++++++++++++-----
 src/serializers/type_serializers/function.rs  |  3 ++-
 src/serializers/type_serializers/generator.rs |  3 ++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 82e0d0b..e1a548c 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -230,7 +230,7 @@ impl SerCheck {
 #[cfg_attr(debug_assertions, derive(Debug))]
 pub(crate) struct ExtraOwned {
     mode: SerMode,
-    warnings: CollectWarnings,
+    warnings_mode: WarningsMode,
     by_alias: Option<bool>,
     exclude_unset: bool,
     exclude_defaults: bool,
@@ -252,7 +252,7 @@ impl ExtraOwned {
         Self {
             mode: extra.mode.clone(),
             // what was collected so far is reported by the call it was collected for, not by this deferred part
-            warnings: CollectWarnings::new(extra.warnings.mode),
+            warnings_mode: extra.warnings.mode,
             by_alias: extra.by_alias,
             exclude_unset: extra.exclude_unset,
             exclude_defaults: extra.exclude_defaults,
@@ -270,18 +270,27 @@ impl ExtraOwned {
         }
     }
 
-    pub fn to_extra<'py>(&'py self, py: Python<'py>) -> Extra<'py> {
+    /// The state of one deferred call, which must not be shared with other such calls, be they in progress or failed
+    pub fn new_call_state(&self) -> (CollectWarnings, SerRecursionState) {
+        (CollectWarnings::new(self.warnings_mode), self.rec_guard.clone())
+    }
+
+    pub fn to_extra<'py>(
+        &'py self,
+        py: Python<'py>,
+        (warnings, rec_guard): &'py (CollectWarnings, SerRecursionState),
+    ) -> Extra<'py> {
         Extra {
             mode: &self.mode,
             ob_type_lookup: ObTypeLookup::cached(py),
-            warnings: &self.warnings,
+            warnings,
             by_alias: self.by_alias,
             exclude_unset: self.exclude_unset,
             exclude_defaults: self.exclude_defaults,
             exclude_none: self.exclude_none,
             round_trip: self.round_trip,
             config: &self.config,
-            rec_guard: &self.rec_guard,
+            rec_guard,
             check: self.check,
             model: self.model.as_ref().map(|m| m.bind(py)),
             field_name: self.field_name.as_deref(),
diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 5442ce0..6f9d8d8 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -501,7 +501,8 @@ impl SerializationCallable {
     ) -> PyResult<Option<PyObject>> {
         let include = self.include.as_ref().map(|o| o.bind(py));
         let exclude = self.exclude.as_ref().map(|o| o.bind(py));
-        let extra = self.extra_owned.to_extra(py);
+        let call_state = self.extra_owned.new_call_state();
+        let extra = self.extra_owned.to_extra(py, &call_state);
 
         if let Some(index_key) = index_key {
             let filter = if let Ok(index) = index_key.extract::<usize>() {
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index de89ef8..fb9a57e 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -223,7 +223,8 @@ impl SerializationIterator {
         let iterator = self.iterator.bind(py);
         let include = self.include.as_ref().map(|o| o.bind(py));
         let exclude = self.exclude.as_ref().map(|o| o.bind(py));
-        let extra = self.extra_owned.to_extra(py);
+        let call_state = self.extra_owned.new_call_state();
+        let extra = self.extra_owned.to_extra(py, &call_state);
 
         for iter_result in iterator.clone() {
             let element = iter_result?;
-- 
2.43.0


From 5f5da0f264fc6712bb55fb21f4c525a4e2e9b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:59 +0000
Subject: [PATCH 22/42] fix: handlers and lazy iterators used after their call
 mistook new objects at reused addresses for cyclic references

---
 src/recursion_guard.rs      | 46 ++++++++++++++++++++++++++++++++++++-
 src/serializers/extra.rs    | 20 +++++++++++-----
 src/validators/generator.rs | 10 ++++----
 3 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index 56f3e83..57a2222 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -1,5 +1,7 @@
 use ahash::AHashSet;
 use std::mem::MaybeUninit;
+use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::{Arc, OnceLock};
 
 type RecursionKey = (
     // Identifier for the input object, e.g. the id() of a Python dict
@@ -65,12 +67,46 @@ pub(crate) trait ContainsRecursionState {
 }
 
 /// State for the RecursionGuard. Can also be used directly to increase / decrease depth.
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Default)]
 pub struct RecursionState {
     ids: RecursionStack,
     // depth could be a hashmap {validator_id => depth} but for simplicity and performance it's easier to just
     // use one number for all validators
     depth: u8,
+    // tells snapshots whether the call this state belongs to is still running
+    in_progress: OnceLock<Arc<AtomicBool>>,
+}
+
+impl Drop for RecursionState {
+    fn drop(&mut self) {
+        if let Some(in_progress) = self.in_progress.get() {
+            in_progress.store(false, Ordering::Relaxed);
+        }
+    }
+}
+
+/// The recursion state at some point of a call, for things which may be used later, even after that call has ended.
+#[derive(Debug, Clone)]
+pub struct RecursionSnapshot {
+    ids: RecursionStack,
+    depth: u8,
+    in_progress: Arc<AtomicBool>,
+}
+
+impl RecursionSnapshot {
+    /// The state to go on with. Once the call has ended the ids are meaningless: they are ids of objects which
+    /// might not exist anymore and whose addresses might have been reused.
+    pub fn resume(&self) -> RecursionState {
+        if self.in_progress.load(Ordering::Relaxed) {
+            RecursionState {
+                ids: self.ids.clone(),
+                depth: self.depth,
+                in_progress: OnceLock::new(),
+            }
+        } else {
+            RecursionState::default()
+        }
+    }
 }
 
 // with debug_assertions enabled, function stacks are a bit bigger so need to be a bit more restricted
@@ -88,6 +124,14 @@ pub const RECURSION_GUARD_LIMIT: u8 = (if cfg!(any(target_family = "wasm", all(w
 }) - GUARD_OFFSET;
 
 impl RecursionState {
+    pub fn snapshot(&self) -> RecursionSnapshot {
+        RecursionSnapshot {
+            ids: self.ids.clone(),
+            depth: self.depth,
+            in_progress: self.in_progress.get_or_init(|| Arc::new(AtomicBool::new(true))).clone(),
+        }
+    }
+
     // insert a new value
     // * return `false` if the stack already had it in it
     // * return `true` if the stack didn't have it in it and it was inserted
diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index e1a548c..6dab416 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -16,6 +16,7 @@ use super::ob_type::ObTypeLookup;
 use crate::recursion_guard::ContainsRecursionState;
 use crate::recursion_guard::RecursionError;
 use crate::recursion_guard::RecursionGuard;
+use crate::recursion_guard::RecursionSnapshot;
 use crate::recursion_guard::RecursionState;
 use crate::PydanticSerializationError;
 
@@ -237,7 +238,7 @@ pub(crate) struct ExtraOwned {
     exclude_none: bool,
     round_trip: bool,
     config: SerializationConfig,
-    rec_guard: SerRecursionState,
+    rec_guard: RecursionSnapshot,
     check: SerCheck,
     pub model: Option<PyObject>,
     field_name: Option<String>,
@@ -259,7 +260,7 @@ impl ExtraOwned {
             exclude_none: extra.exclude_none,
             round_trip: extra.round_trip,
             config: extra.config.clone(),
-            rec_guard: extra.rec_guard.clone(),
+            rec_guard: extra.rec_guard.snapshot(),
             check: extra.check,
             model: extra.model.map(|model| model.clone().into()),
             field_name: extra.field_name.map(ToString::to_string),
@@ -272,7 +273,10 @@ impl ExtraOwned {
 
     /// The state of one deferred call, which must not be shared with other such calls, be they in progress or failed
     pub fn new_call_state(&self) -> (CollectWarnings, SerRecursionState) {
-        (CollectWarnings::new(self.warnings_mode), self.rec_guard.clone())
+        (
+            CollectWarnings::new(self.warnings_mode),
+            SerRecursionState::resume(&self.rec_guard),
+        )
     }
 
     pub fn to_extra<'py>(
@@ -495,10 +499,14 @@ pub struct SerRecursionState {
     guard: Mutex<RecursionState>,
 }
 
-impl Clone for SerRecursionState {
-    fn clone(&self) -> Self {
+impl SerRecursionState {
+    fn snapshot(&self) -> RecursionSnapshot {
+        self.guard.lock().expect("lock poisoned").snapshot()
+    }
+
+    fn resume(snapshot: &RecursionSnapshot) -> Self {
         Self {
-            guard: Mutex::new(self.guard.lock().expect("lock poisoned").clone()),
+            guard: Mutex::new(snapshot.resume()),
         }
     }
 }
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 3dffa61..b6761e9 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -8,7 +8,7 @@ use crate::definitions::{Kept, Shared};
 use crate::errors::{ErrorType, LocItem, ValError, ValResult};
 use crate::input::{BorrowInput, GenericIterator, Input};
 use crate::py_gc::PyGcTraverse;
-use crate::recursion_guard::RecursionState;
+use crate::recursion_guard::RecursionSnapshot;
 use crate::tools::SchemaDict;
 use crate::ValidationError;
 
@@ -227,7 +227,7 @@ pub struct InternalValidator {
     context: Option<PyObject>,
     self_instance: Option<PyObject>,
     // the state at creation, each call works on its own copy
-    recursion_guard: RecursionState,
+    recursion_guard: RecursionSnapshot,
     // a mutex since python code may call into this while another call is still in progress
     exactness: Mutex<Option<Exactness>>,
     validation_mode: InputType,
@@ -261,7 +261,7 @@ impl InternalValidator {
             from_attributes: extra.from_attributes,
             context: extra.context.map(|d| d.clone().unbind()),
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
-            recursion_guard: state.recursion_guard.clone(),
+            recursion_guard: state.recursion_guard.snapshot(),
             exactness: Mutex::new(state.exactness),
             validation_mode: extra.input_type,
             hide_input_in_errors,
@@ -300,7 +300,7 @@ impl InternalValidator {
             by_alias: self.by_alias,
             by_name: self.by_name,
         };
-        let mut recursion_guard = self.recursion_guard.clone();
+        let mut recursion_guard = self.recursion_guard.resume();
         let mut state = ValidationState::new(extra, &mut recursion_guard, false.into());
         state.exactness = self.exactness();
         let result = self
@@ -339,7 +339,7 @@ impl InternalValidator {
             by_alias: self.by_alias,
             by_name: self.by_name,
         };
-        let mut recursion_guard = self.recursion_guard.clone();
+        let mut recursion_guard = self.recursion_guard.resume();
         let mut state = ValidationState::new(extra, &mut recursion_guard, false.into());
         state.exactness = self.exactness();
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
-- 
2.43.0


From 09d56246030ee38b20b4ecbf8b0b984148f9b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 23/42] fix: do not panic when a set, a dict or a keyword dict
 changes or fails while it is iterated

frozenset subclasses whose __iter__ fails, string mappings and include/exclude
arguments changed while they are iterated, failing var_args of arguments-v3 and
unpacked var_kwargs which are no dict raised a PanicException.
---
 src/input/input_python.rs      |  4 ++--
 src/input/input_string.rs      | 18 +++++++++---------
 src/serializers/filter.rs      | 19 +++++++++++--------
 src/validators/arguments.rs    |  2 +-
 src/validators/arguments_v3.rs | 13 +++++++------
 src/validators/dataclass.rs    |  5 +++--
 6 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 44fcc67..065f52f 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -931,7 +931,7 @@ impl<'py> PySequenceIterable<'_, 'py> {
             PySequenceIterable::List(iter) => iter.iter().map(Ok).try_for_each(f),
             PySequenceIterable::Tuple(iter) => iter.iter().map(Ok).try_for_each(f),
             PySequenceIterable::Set(iter) => iter.try_iter()?.try_for_each(f),
-            PySequenceIterable::FrozenSet(iter) => iter.iter().map(Ok).try_for_each(f),
+            PySequenceIterable::FrozenSet(iter) => iter.try_iter()?.try_for_each(f),
             PySequenceIterable::Iterator(mut iter) => iter.try_for_each(f),
         }
     }
@@ -943,7 +943,7 @@ impl<'py> PySequenceIterable<'_, 'py> {
             PySequenceIterable::List(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
             PySequenceIterable::Tuple(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
             PySequenceIterable::Set(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
-            PySequenceIterable::FrozenSet(iter) => Ok(consumer.consume_iterator(iter.iter().map(Ok))),
+            PySequenceIterable::FrozenSet(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
             PySequenceIterable::Iterator(iter) => Ok(consumer.consume_iterator(iter.try_iter()?)),
         }
     }
diff --git a/src/input/input_string.rs b/src/input/input_string.rs
index 0ab4ad0..4dc7922 100644
--- a/src/input/input_string.rs
+++ b/src/input/input_string.rs
@@ -6,7 +6,7 @@ use speedate::MicrosecondsPrecisionOverflowBehavior;
 use crate::errors::{ErrorTypeDefaults, InputValue, LocItem, ValError, ValResult};
 use crate::input::py_string_str;
 use crate::lookup_key::{LookupKey, LookupPath};
-use crate::tools::safe_repr;
+use crate::tools::{checked_dict_iter, safe_repr};
 use crate::validators::complex::string_to_complex;
 use crate::validators::decimal::create_decimal;
 use crate::validators::ValBytesMode;
@@ -294,9 +294,10 @@ impl<'py> KeywordArgs<'py> for StringMappingDict<'py> {
     }
 
     fn iter(&self) -> impl Iterator<Item = ValResult<(Self::Key<'_>, Self::Item<'_>)>> {
-        self.0
-            .iter()
-            .map(|(key, val)| Ok((StringMapping::new_key(key)?, StringMapping::new_value(val)?)))
+        checked_dict_iter(&self.0).map(|item| {
+            let (key, val) = item?;
+            Ok((StringMapping::new_key(key)?, StringMapping::new_value(val)?))
+        })
     }
 }
 
@@ -317,11 +318,10 @@ impl<'py> ValidatedDict<'py> for StringMappingDict<'py> {
         &'a self,
         consumer: impl super::ConsumeIterator<ValResult<(Self::Key<'a>, Self::Item<'a>)>, Output = R>,
     ) -> ValResult<R> {
-        Ok(consumer.consume_iterator(
-            self.0
-                .iter()
-                .map(|(key, val)| Ok((StringMapping::new_key(key)?, StringMapping::new_value(val)?))),
-        ))
+        Ok(consumer.consume_iterator(checked_dict_iter(&self.0).map(|item| {
+            let (key, val) = item?;
+            Ok((StringMapping::new_key(key)?, StringMapping::new_value(val)?))
+        })))
     }
 
     fn last_key(&self) -> Option<Self::Key<'_>> {
diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..259872a 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -7,7 +7,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::{PyBool, PyDict, PySet};
 
-use crate::tools::SchemaDict;
+use crate::tools::{checked_dict_iter, SchemaDict};
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct SchemaFilter<T> {
@@ -41,14 +41,15 @@ fn map_negative_indices<'py>(
     let py = include_or_exclude.py();
     if let Ok(exclude_dict) = include_or_exclude.downcast::<PyDict>() {
         let out = PyDict::new(py);
-        for (k, v) in exclude_dict.iter() {
+        for item in checked_dict_iter(exclude_dict) {
+            let (k, v) = item?;
             out.set_item(map_negative_index(&k, len)?, v)?;
         }
         Ok(out.into_any())
     } else if let Ok(exclude_set) = include_or_exclude.downcast::<PySet>() {
         let mut values = Vec::with_capacity(exclude_set.len());
-        for v in exclude_set.iter() {
-            values.push(map_negative_index(&v, len)?);
+        for v in exclude_set.try_iter()? {
+            values.push(map_negative_index(&v?, len)?);
         }
         Ok(PySet::new(py, &values)?.into_any())
     } else {
@@ -357,8 +358,8 @@ fn as_dict<'py>(value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyDict>> {
     } else if let Ok(set) = value.downcast::<PySet>() {
         let py = value.py();
         let dict = PyDict::new(py);
-        for item in set.iter() {
-            dict.set_item(item, py.Ellipsis())?;
+        for item in set.try_iter()? {
+            dict.set_item(item?, py.Ellipsis())?;
         }
         Ok(dict)
     } else {
@@ -371,7 +372,8 @@ fn as_dict<'py>(value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyDict>> {
 fn merge_dicts<'py>(item_dict: &Bound<'py, PyDict>, all_value: &Bound<'py, PyAny>) -> PyResult<Bound<'py, PyDict>> {
     let item_dict = item_dict.copy()?;
     if let Ok(all_dict) = all_value.downcast::<PyDict>() {
-        for (all_key, all_value) in all_dict.iter() {
+        for all_item in checked_dict_iter(all_dict) {
+            let (all_key, all_value) = all_item?;
             if let Some(item_value) = item_dict.get_item(&all_key)? {
                 if is_ellipsis_like(&item_value) {
                     continue;
@@ -386,7 +388,8 @@ fn merge_dicts<'py>(item_dict: &Bound<'py, PyDict>, all_value: &Bound<'py, PyAny
             }
         }
     } else if let Ok(set) = all_value.downcast::<PySet>() {
-        for item in set.iter() {
+        for item in set.try_iter()? {
+            let item = item?;
             if !item_dict.contains(&item)? {
                 item_dict.set_item(item, set.py().Ellipsis())?;
             }
diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2ca3ba5..e25acf8 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -384,7 +384,7 @@ impl Validator for ArgumentsValidator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 22c9c6d..5fd01a2 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -16,7 +16,7 @@ use crate::input::{
     Arguments, BorrowInput, Input, KeywordArgs, PositionalArgs, ValidatedDict, ValidatedTuple, ValidationMatch,
 };
 use crate::lookup_key::LookupKeyCollection;
-use crate::tools::SchemaDict;
+use crate::tools::{checked_dict_iter, SchemaDict};
 
 use super::validation_state::ValidationState;
 use super::{build_validator, BuildValidator, CombinedValidator, DefinitionsBuilder, Validator};
@@ -280,7 +280,7 @@ impl ArgumentsV3Validator {
                         Ok(tuple) => {
                             let mut i: i64 = 0;
                             tuple.unpack(state).try_for_each(|v| {
-                                match parameter.validator.validate(py, v.unwrap().borrow_input(), state) {
+                                match parameter.validator.validate(py, v?.borrow_input(), state) {
                                     Ok(tuple_value) => {
                                         output_args.push(tuple_value);
                                         i += 1;
@@ -327,7 +327,8 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUniform => match dict_value.borrow_input().as_kwargs(py) {
                         // We will validate that keys are strings, and values match the validator:
                         Some(value) => {
-                            for (dict_key, dict_value) in value {
+                            for item in checked_dict_iter(&value) {
+                                let (dict_key, dict_value) = item?;
                                 // Validate keys are strings:
                                 match dict_key.validate_str(true, false).map(ValidationMatch::into_inner) {
                                     Ok(_) => (),
@@ -367,7 +368,7 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, dict_value.borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -418,7 +419,7 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, PyDict::new(py).borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -738,7 +739,7 @@ impl ArgumentsV3Validator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 20a44d8..1965903 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -13,7 +13,7 @@ use crate::input::{
     input_as_python_instance, Arguments, BorrowInput, Input, InputType, KeywordArgs, PositionalArgs, ValidationMatch,
 };
 use crate::lookup_key::LookupKeyCollection;
-use crate::tools::SchemaDict;
+use crate::tools::{checked_dict_iter, SchemaDict};
 use crate::validators::function::convert_err;
 
 use super::model::{create_class, force_setattr, Revalidate};
@@ -665,7 +665,8 @@ impl DataclassValidator {
         let (dc_dict, post_init_kwargs): (Bound<'_, PyAny>, Bound<'_, PyAny>) = val_output.extract(py)?;
         if self.slots {
             let dc_dict = dc_dict.downcast::<PyDict>()?;
-            for (key, value) in dc_dict.iter() {
+            for item in checked_dict_iter(dc_dict) {
+                let (key, value) = item?;
                 force_setattr(py, dc, key, value)?;
             }
         } else {
-- 
2.43.0


From 6ebb45837c95926956c6f0a1bbec77e9ad91c92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 24/42] fix: do not panic or abort on lengths claimed by
 arbitrary objects and on unprintable titles

An iterator whose __len__ lies made list, tuple and generator schemas reserve
that much memory up front; titles which are no string or hold surrogates made
str() of a ValidationError and repr() of a validator panic.
---
 src/errors/validation_exception.rs            |  4 ++--
 src/serializers/type_serializers/generator.rs |  4 ++--
 src/tools.rs                                  | 10 ++++++++++
 src/validators/list.rs                        |  4 ++--
 src/validators/mod.rs                         |  4 ++--
 src/validators/tuple.rs                       |  4 ++--
 6 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 16e89eb..ff9adf1 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -19,7 +19,7 @@ use crate::errors::LocItem;
 use crate::get_pydantic_version;
 use crate::input::InputType;
 use crate::serializers::{DuckTypingSerMode, Extra, SerMode, SerializationState};
-use crate::tools::{safe_repr, write_truncated_to_limited_bytes, SchemaDict};
+use crate::tools::{safe_repr, safe_str, write_truncated_to_limited_bytes, SchemaDict};
 
 use super::line_error::ValLineError;
 use super::location::Location;
@@ -100,7 +100,7 @@ impl ValidationError {
         } else {
             let count = self.line_errors.len();
             let plural = if count == 1 { "" } else { "s" };
-            let title: &str = self.title.extract(py).unwrap();
+            let title = safe_str(self.title.bind(py));
             format!("{count} validation error{plural} for {title}\n{line_errors}")
         }
     }
diff --git a/src/serializers/type_serializers/generator.rs b/src/serializers/type_serializers/generator.rs
index fb9a57e..7ff6816 100644
--- a/src/serializers/type_serializers/generator.rs
+++ b/src/serializers/type_serializers/generator.rs
@@ -11,7 +11,7 @@ use serde::ser::SerializeSeq;
 
 use crate::definitions::{DefinitionsBuilder, Kept, Shared};
 use crate::py_gc::PyGcTraverse;
-use crate::tools::SchemaDict;
+use crate::tools::{claimed_capacity, SchemaDict};
 
 use super::any::AnySerializer;
 use super::{
@@ -64,7 +64,7 @@ impl TypeSerializer for GeneratorSerializer {
                         let item_serializer = &*self.item_serializer;
 
                         let mut items = match value.len() {
-                            Ok(len) => Vec::with_capacity(len),
+                            Ok(len) => Vec::with_capacity(claimed_capacity(len)),
                             Err(_) => Vec::new(),
                         };
                         for (index, iter_result) in py_iter.clone().enumerate() {
diff --git a/src/tools.rs b/src/tools.rs
index 91511dc..335a57f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -118,6 +118,11 @@ pub fn safe_repr<'py>(v: &Bound<'py, PyAny>) -> ReprOutput<'py> {
     }
 }
 
+/// `str(v)`, which cannot fail
+pub fn safe_str<'py>(v: &Bound<'py, PyAny>) -> ReprOutput<'py> {
+    v.str().map_or_else(|_| safe_repr(v), ReprOutput::Python)
+}
+
 // warning: this function can be incredibly slow, so use with caution
 pub fn truncate_safe_repr(v: &Bound<'_, PyAny>, max_len: Option<usize>) -> String {
     let max_len = max_len.unwrap_or(50); // default to 100 bytes
@@ -200,6 +205,11 @@ pub fn write_truncated_to_limited_bytes<F: fmt::Write>(f: &mut F, val: &str, max
     }
 }
 
+/// The capacity to reserve up front for a length claimed by an arbitrary python object, whose `__len__` might be wrong
+pub(crate) fn claimed_capacity(len: usize) -> usize {
+    len.min(1 << 16)
+}
+
 /// Iterate over a dict while arbitrary python code might run between the steps.
 ///
 /// PyO3's dict iterator panics if the dict is mutated while it is being iterated over, this iterator yields the
diff --git a/src/validators/list.rs b/src/validators/list.rs
index 96d4bf1..40f897f 100644
--- a/src/validators/list.rs
+++ b/src/validators/list.rs
@@ -7,7 +7,7 @@ use crate::errors::ValResult;
 use crate::input::{
     no_validator_iter_to_vec, validate_iter_to_vec, BorrowInput, ConsumeIterator, Input, MaxLengthCheck, ValidatedList,
 };
-use crate::tools::SchemaDict;
+use crate::tools::{claimed_capacity, SchemaDict};
 
 use super::{build_validator, BuildValidator, CombinedValidator, DefinitionsBuilder, ValidationState, Validator};
 
@@ -199,7 +199,7 @@ where
 {
     type Output = ValResult<Vec<PyObject>>;
     fn consume_iterator(self, iterator: impl Iterator<Item = PyResult<T>>) -> ValResult<Vec<PyObject>> {
-        let capacity = self.actual_length.unwrap_or(DEFAULT_CAPACITY);
+        let capacity = self.actual_length.map_or(DEFAULT_CAPACITY, claimed_capacity);
         let max_length_check = MaxLengthCheck::new(self.max_length, self.field_type, self.input, self.actual_length);
         validate_iter_to_vec(
             self.py,
diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index 28f1d88..1005485 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -16,7 +16,7 @@ use crate::errors::{LocItem, ValError, ValResult, ValidationError};
 use crate::input::{Input, InputType, StringMapping};
 use crate::py_gc::PyGcTraverse;
 use crate::recursion_guard::RecursionState;
-use crate::tools::SchemaDict;
+use crate::tools::{safe_str, SchemaDict};
 pub(crate) use config::ValBytesMode;
 
 mod any;
@@ -360,7 +360,7 @@ impl SchemaValidator {
     pub fn __repr__(&self, py: Python) -> String {
         format!(
             "SchemaValidator(title={:?}, validator={:#?}, definitions={:#?}, cache_strings={})",
-            self.title.extract::<&str>(py).unwrap(),
+            safe_str(self.title.bind(py)).to_string(),
             self.validator,
             self.definitions,
             match self.cache_str {
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..dc0e735 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -8,7 +8,7 @@ use crate::build_tools::is_strict;
 use crate::errors::{py_err_string, ErrorType, ErrorTypeDefaults, ValError, ValLineError, ValResult};
 use crate::input::ConsumeIterator;
 use crate::input::{BorrowInput, Input, ValidatedTuple};
-use crate::tools::SchemaDict;
+use crate::tools::{claimed_capacity, SchemaDict};
 
 use super::{build_validator, BuildValidator, CombinedValidator, DefinitionsBuilder, ValidationState, Validator};
 
@@ -113,7 +113,7 @@ impl TupleValidator {
         actual_length: Option<usize>,
     ) -> ValResult<Vec<PyObject>> {
         let expected_length = if self.variadic_item_index.is_some() {
-            actual_length.unwrap_or(self.validators.len())
+            actual_length.map_or(self.validators.len(), claimed_capacity)
         } else {
             self.validators.len()
         };
-- 
2.43.0


From 37caa7d189fa8cf57813f3ecc7d1958b9e69e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 25/42] fix: to_json read computed properties twice

---
 src/serializers/computed_fields.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 6e6786d..a9a8b22 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -92,7 +92,7 @@ impl ComputedFields {
                     ..*extra
                 };
                 let cfs = ComputedFieldSerializer {
-                    model,
+                    value: &value,
                     computed_field,
                     include: next_include.as_ref(),
                     exclude: next_exclude.as_ref(),
@@ -176,7 +176,7 @@ impl ComputedField {
 }
 
 pub(crate) struct ComputedFieldSerializer<'py> {
-    model: &'py Bound<'py, PyAny>,
+    value: &'py Bound<'py, PyAny>,
     computed_field: &'py ComputedField,
     include: Option<&'py Bound<'py, PyAny>>,
     exclude: Option<&'py Bound<'py, PyAny>>,
@@ -195,11 +195,8 @@ impl_py_gc_traverse!(ComputedFieldSerializer<'_> { computed_field });
 
 impl Serialize for ComputedFieldSerializer<'_> {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let py = self.model.py();
-        let property_name_py = self.computed_field.property_name_py.bind(py);
-        let next_value = self.model.getattr(property_name_py).map_err(py_err_se_err)?;
         let s = PydanticSerializer::new(
-            &next_value,
+            self.value,
             &self.computed_field.serializer,
             self.include,
             self.exclude,
-- 
2.43.0


From 0268aa66bf5df6d160b8cc6eccb1204371aa31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 26/42] fix: to_json ignored the schema of extra fields

---
 src/serializers/fields.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index a9116b5..692b071 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -271,8 +271,14 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.serialize_extra_entry::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        &field_extra,
+                    )?;
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -280,6 +286,23 @@ impl GeneralFieldsSerializer {
         Ok(map)
     }
 
+    fn serialize_extra_entry<S: serde::ser::Serializer>(
+        &self,
+        map: &mut S::SerializeMap,
+        key: &str,
+        value: &Bound<'_, PyAny>,
+        include: Option<&Bound<'_, PyAny>>,
+        exclude: Option<&Bound<'_, PyAny>>,
+        extra: &Extra,
+    ) -> Result<(), S::Error> {
+        match &self.extra_serializer {
+            Some(serializer) => {
+                map.serialize_entry(key, &PydanticSerializer::new(value, serializer, include, exclude, extra))
+            }
+            None => map.serialize_entry(key, &SerializeInfer::new(value, include, exclude, extra)),
+        }
+    }
+
     pub(crate) fn add_computed_fields_python(
         &self,
         model: Option<&Bound<'_, PyAny>>,
@@ -447,8 +470,14 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.serialize_extra_entry::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        extra,
+                    )?;
                 }
             }
         }
-- 
2.43.0


From 926acc7a9d7f82d2e44352b762f28c8427fc6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 27/42] fix: to_json applied include/exclude to the items of
 inferred sets

---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 5f64deb..74aa1e8 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -381,7 +381,7 @@ pub(crate) fn infer_serialize_known<S: Serializer>(
             let mut seq = serializer.serialize_seq(Some(py_seq.len()))?;
             for element in py_seq.try_iter().map_err(py_err_se_err)? {
                 let element = element.map_err(py_err_se_err)?;
-                let item_serializer = SerializeInfer::new(&element, include, exclude, extra);
+                let item_serializer = SerializeInfer::new(&element, None, None, extra);
                 seq.serialize_element(&item_serializer)?
             }
             seq.end()
-- 
2.43.0


From 699720284e11907d733010571cf72f51e86086ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 28/42] fix: to_json warned about values which serialize_as_any
 infers anyway

---
 src/serializers/fields.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 692b071..591bafb 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -419,13 +419,6 @@ impl TypeSerializer for GeneralFieldsSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> Result<S::Ok, S::Error> {
-        let (main_dict, extra_dict) = if let Some(main_extra_dict) = self.extract_dicts(value) {
-            main_extra_dict
-        } else {
-            extra.warnings.on_fallback_ser::<S>(self.get_name(), value, extra)?;
-            return infer_serialize(value, serializer, include, exclude, extra);
-        };
-
         // If there is already a model registered (from a dataclass, BaseModel)
         // then do not touch it
         // If there is no model, we (a TypedDict) are the model
@@ -445,6 +438,12 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 return infer_serialize(value, serializer, include, exclude, &td_extra);
             }
         }
+        let (main_dict, extra_dict) = if let Some(main_extra_dict) = self.extract_dicts(value) {
+            main_extra_dict
+        } else {
+            extra.warnings.on_fallback_ser::<S>(self.get_name(), value, extra)?;
+            return infer_serialize(value, serializer, include, exclude, extra);
+        };
         let expected_len = match self.mode {
             FieldsMode::TypedDictAllow => main_dict.len() + self.computed_field_count(),
             _ => self.fields.len() + option_length!(extra_dict) + self.computed_field_count(),
-- 
2.43.0


From 6aa7f95d1dde57073a224dc56418ad993d48d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 29/42] fix: a validated default which needs itself recursed
 until the stack overflowed

---
 src/validators/with_default.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8f32f58..f293f47 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -9,9 +9,10 @@ use pyo3::PyVisit;
 use super::{build_validator, BuildValidator, CombinedValidator, DefinitionsBuilder, ValidationState, Validator};
 use crate::build_tools::py_schema_err;
 use crate::build_tools::schema_or_config_same;
-use crate::errors::{LocItem, ValError, ValResult};
+use crate::errors::{ErrorTypeDefaults, LocItem, ValError, ValResult};
 use crate::input::Input;
 use crate::py_gc::PyGcTraverse;
+use crate::recursion_guard::{ContainsRecursionState, RecursionState};
 use crate::tools::SchemaDict;
 use crate::PydanticUndefinedType;
 
@@ -192,7 +193,15 @@ impl Validator for WithDefaultValidator {
                 };
                 if self.validate_default {
                     // not `self.validate`: a default which is itself invalid must not be replaced by the default again
-                    match self.validator.validate(py, dft.bind(py), state) {
+                    // validating a default might need this default again, without any input being involved
+                    let result = if state.access_recursion_state(RecursionState::incr_depth) {
+                        Err(ValError::new(ErrorTypeDefaults::RecursionLoop, dft.bind(py)))
+                    } else {
+                        let result = self.validator.validate(py, dft.bind(py), state);
+                        state.access_recursion_state(RecursionState::decr_depth);
+                        result
+                    };
+                    match result {
                         Ok(v) => Ok(Some(v)),
                         Err(ValError::LineErrors(_)) if self.omit_on_error() => Err(ValError::Omit),
                         Err(e) => {
-- 
2.43.0


From 6c3eec2914c6d808f5ad29f72fad415ecba50dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 30/42] fix: a definition referring to itself without consuming
 any JSON recursed until the stack overflowed

---
 src/validators/definitions.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index aeeb627..64903bc 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -7,7 +7,7 @@ use crate::definitions::DefinitionRef;
 use crate::errors::{ErrorTypeDefaults, ValError, ValResult};
 use crate::input::Input;
 
-use crate::recursion_guard::RecursionGuard;
+use crate::recursion_guard::{RecursionError, RecursionGuard};
 use crate::tools::SchemaDict;
 
 use super::{build_validator, BuildValidator, CombinedValidator, DefinitionsBuilder, ValidationState, Validator};
@@ -87,6 +87,16 @@ impl Validator for DefinitionRefValidator {
                 };
                 validator.validate(py, input, guard.state())
             } else {
+                // other input is a tree, but a definition might refer to itself without going deeper into it
+                let id = std::ptr::from_ref(input).cast::<()>() as usize;
+                match RecursionGuard::new(state, id, self.definition.id()) {
+                    Ok(mut guard) => return validator.validate(py, input, guard.state()),
+                    Err(RecursionError::Cyclic) => {
+                        return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, input));
+                    }
+                    // the depth of the tree has a limit of its own
+                    Err(RecursionError::Depth) => {}
+                }
                 validator.validate(py, input, state)
             }
         })
-- 
2.43.0


From fff2498d3928fb9df736c8de571425a8426f797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:33 +0000
Subject: [PATCH 31/42] fix: dict keys with a definition referring to itself
 recursed until the stack overflowed

---
 src/serializers/type_serializers/definitions.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/definitions.rs b/src/serializers/type_serializers/definitions.rs
index 38fd7ce..ad2a43c 100644
--- a/src/serializers/type_serializers/definitions.rs
+++ b/src/serializers/type_serializers/definitions.rs
@@ -98,8 +98,11 @@ impl TypeSerializer for DefinitionRefSerializer {
         })
     }
 
-    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-        self.definition.read(|s| s.unwrap().json_key(key, extra))
+    fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, mut extra: &Extra) -> PyResult<Cow<'a, str>> {
+        self.definition.read(|s| {
+            let mut guard = extra.recursion_guard(key, self.definition.id())?;
+            s.unwrap().json_key(key, guard.state())
+        })
     }
 
     fn serde_serialize<S: serde::ser::Serializer>(
-- 
2.43.0


From d5cca26bdf8a6f35f5f09291ecb72433563a50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 32/42] fix: errors and Some were invisible to the garbage
 collector

---
 src/errors/types.rs                | 15 +++++++++++++++
 src/errors/validation_exception.rs | 16 ++++++++++++++++
 src/errors/value_exception.rs      | 20 ++++++++++++++++++++
 src/serializers/errors.rs          | 10 ++++++++++
 src/validators/mod.rs              |  4 ++++
 5 files changed, 65 insertions(+)

diff --git a/src/errors/types.rs b/src/errors/types.rs
index 0c75e1e..fc24fc4 100644
--- a/src/errors/types.rs
+++ b/src/errors/types.rs
@@ -6,6 +6,7 @@ use pyo3::exceptions::{PyKeyError, PyTypeError};
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyList};
+use pyo3::{PyTraverseError, PyVisit};
 
 use ahash::AHashMap;
 use num_bigint::BigInt;
@@ -13,6 +14,7 @@ use strum::{Display, EnumMessage, IntoEnumIterator};
 use strum_macros::EnumIter;
 
 use crate::input::{InputType, Int};
+use crate::py_gc::PyGcTraverse;
 use crate::tools::{extract_i64, py_err, py_error_type};
 
 use super::PydanticCustomError;
@@ -138,6 +140,19 @@ macro_rules! error_types {
             }
         }
 
+        impl PyGcTraverse for ErrorType {
+            fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+                if let Self::ValueError { error, .. } | Self::AssertionError { error, .. } = self {
+                    error.py_gc_traverse(visit)?;
+                }
+                match self {
+                    $(
+                        Self::$item { context, .. } => context.py_gc_traverse(visit),
+                    )+
+                }
+            }
+        }
+
         pub struct ErrorTypeDefaults {}
         // Allow unused default constants as they are generated by macro.
         // Also allow camel case as constants so we dont need to do case conversion of macro
diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index ff9adf1..f4d78ab 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -9,6 +9,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyList, PyString, PyTuple, PyType};
+use pyo3::{PyTraverseError, PyVisit};
 use serde::ser::{Error, SerializeMap, SerializeSeq};
 use serde::{Serialize, Serializer};
 
@@ -18,6 +19,7 @@ use crate::build_tools::py_schema_error_type;
 use crate::errors::LocItem;
 use crate::get_pydantic_version;
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::serializers::{DuckTypingSerMode, Extra, SerMode, SerializationState};
 use crate::tools::{safe_repr, safe_str, write_truncated_to_limited_bytes, SchemaDict};
 
@@ -255,6 +257,15 @@ impl ValidationError {
 
 #[pymethods]
 impl ValidationError {
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.line_errors.py_gc_traverse(&visit)?;
+        self.title.py_gc_traverse(&visit)
+    }
+
+    fn __clear__(&mut self) {
+        self.line_errors.clear();
+    }
+
     #[new]
     #[pyo3(signature = (title, line_errors, input_type="python", hide_input=false))]
     fn py_new(title: PyObject, line_errors: Vec<PyLineError>, input_type: &str, hide_input: bool) -> PyResult<Self> {
@@ -428,6 +439,11 @@ pub struct PyLineError {
     input_value: PyObject,
 }
 
+impl_py_gc_traverse!(PyLineError {
+    error_type,
+    input_value
+});
+
 impl From<PyLineError> for ValLineError {
     /// Used to extract line errors from a validation error for wrap functions
     fn from(other: PyLineError) -> ValLineError {
diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index 25d023b..e66ee5d 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -1,8 +1,10 @@
 use pyo3::exceptions::{PyException, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyString};
+use pyo3::{PyTraverseError, PyVisit};
 
 use crate::input::InputType;
+use crate::py_gc::PyGcTraverse;
 use crate::tools::extract_i64;
 
 use super::line_error::ToErrorValue;
@@ -74,6 +76,14 @@ impl PydanticCustomError {
         }
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.context.py_gc_traverse(&visit)
+    }
+
+    fn __clear__(&mut self) {
+        self.context = None;
+    }
+
     #[getter(r#type)]
     pub fn error_type(&self) -> &str {
         &self.error_type
@@ -152,6 +162,16 @@ impl PydanticKnownError {
         Ok(Self { error_type })
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.error_type.py_gc_traverse(&visit)
+    }
+
+    fn __clear__(&mut self) {
+        if let ErrorType::ValueError { error, .. } | ErrorType::AssertionError { error, .. } = &mut self.error_type {
+            *error = None;
+        }
+    }
+
     #[getter(r#type)]
     pub fn error_type(&self) -> String {
         self.error_type.to_string()
diff --git a/src/serializers/errors.rs b/src/serializers/errors.rs
index d9ba856..f85ecf9 100644
--- a/src/serializers/errors.rs
+++ b/src/serializers/errors.rs
@@ -4,7 +4,9 @@ use std::fmt::Write;
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use pyo3::types::PyString;
+use pyo3::{PyTraverseError, PyVisit};
 
+use crate::py_gc::PyGcTraverse;
 use crate::tools::truncate_safe_repr;
 
 use serde::ser;
@@ -148,6 +150,14 @@ impl PydanticSerializationUnexpectedValue {
         }
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.input_value.py_gc_traverse(&visit)
+    }
+
+    fn __clear__(&mut self) {
+        self.input_value = None;
+    }
+
     pub(crate) fn __str__(&self, py: Python) -> String {
         let mut message = self.message.as_deref().unwrap_or("").to_string();
 
diff --git a/src/validators/mod.rs b/src/validators/mod.rs
index 1005485..3703a05 100644
--- a/src/validators/mod.rs
+++ b/src/validators/mod.rs
@@ -92,6 +92,10 @@ impl PySome {
         Self { value }
     }
 
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.value.py_gc_traverse(&visit)
+    }
+
     #[classmethod]
     #[pyo3(signature = (_item, /))]
     pub fn __class_getitem__(cls: Py<PyType>, _item: &Bound<'_, PyAny>) -> Py<PyType> {
-- 
2.43.0


From fb6eafd0f01987fa8b4cda43e3fcb8771e544a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 33/42] fix: ArgsKwargs was invisible to the garbage collector

---
 src/argument_markers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/argument_markers.rs b/src/argument_markers.rs
index f22a32c..c6096b6 100644
--- a/src/argument_markers.rs
+++ b/src/argument_markers.rs
@@ -2,10 +2,12 @@ use pyo3::exceptions::PyNotImplementedError;
 use pyo3::prelude::*;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyTuple};
+use pyo3::{PyTraverseError, PyVisit};
 
+use crate::py_gc::PyGcTraverse;
 use crate::tools::safe_repr;
 
-#[pyclass(module = "pydantic_core._pydantic_core", get_all, frozen, freelist = 100)]
+#[pyclass(module = "pydantic_core._pydantic_core", get_all, frozen)]
 #[derive(Debug, Clone)]
 pub struct ArgsKwargs {
     pub(crate) args: Py<PyTuple>,
@@ -42,6 +44,11 @@ impl ArgsKwargs {
             None => format!("ArgsKwargs({args})"),
         }
     }
+
+    fn __traverse__(&self, visit: PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.args.py_gc_traverse(&visit)?;
+        self.kwargs.py_gc_traverse(&visit)
+    }
 }
 
 static UNDEFINED_CELL: GILOnceCell<Py<PydanticUndefinedType>> = GILOnceCell::new();
-- 
2.43.0


From 7e611e825f65b06307df7d5fb5046e8f0fb92606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 34/42] fix: a revalidated model instance shared its fields set
 with the original

---
 src/validators/model.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index f2c3658..d79e0c2 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -153,7 +153,14 @@ impl Validator for ModelValidator {
 
         if let Some(py_input) = py_instance_input {
             if self.revalidate.should_revalidate(py_input, class) || force_revalidate {
-                let fields_set = py_input.getattr(intern!(py, DUNDER_FIELDS_SET_KEY))?;
+                // a copy, otherwise an assignment to the new instance would change the fields set of the original
+                let fields_set = match py_input
+                    .getattr(intern!(py, DUNDER_FIELDS_SET_KEY))?
+                    .downcast_into::<PySet>()
+                {
+                    Ok(fields_set) => PySet::new(py, fields_set.iter())?.into_any(),
+                    Err(e) => e.into_inner(),
+                };
                 if self.root_model {
                     let inner_input = py_input.getattr(intern!(py, ROOT_FIELD))?;
                     self.validate_construct(py, &inner_input, Some(&fields_set), state)
-- 
2.43.0


From 264aabecb17aee0b54dd3bf6b8d86593b088a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 35/42] fix: a validation error with a custom error could not
 be unpickled

---
 src/errors/validation_exception.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index f4d78ab..3a2d98a 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -404,13 +404,22 @@ impl ValidationError {
         let py = slf.py();
         let callable = slf.getattr("from_exception_data")?;
         let borrow = slf.try_borrow()?;
-        let args = (
-            &borrow.title,
-            borrow.errors(py, include_url_env(py), true, true)?,
-            borrow.input_type,
-            borrow.hide_input,
-        )
-            .into_pyobject(py)?;
+        let errors = borrow.errors(py, include_url_env(py), true, true)?.into_bound(py);
+        for (line_error, error) in borrow.line_errors.iter().zip(&errors) {
+            // a custom error cannot be made again from its type alone
+            if let ErrorType::CustomError {
+                error_type,
+                message_template,
+                context,
+            } = &line_error.error_type
+            {
+                let custom_error =
+                    py.get_type::<PydanticCustomError>()
+                        .call1((error_type, message_template, context.as_ref()))?;
+                error.set_item("type", custom_error)?;
+            }
+        }
+        let args = (&borrow.title, errors, borrow.input_type, borrow.hide_input).into_pyobject(py)?;
         Ok((callable, args))
     }
 }
-- 
2.43.0


From 9b9943e2b9ead4396fb0d9c41052e6a93b619a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 36/42] fix: a prebuilt validator did not support assignments

---
 src/validators/prebuilt.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validators/prebuilt.rs b/src/validators/prebuilt.rs
index 8aead86..c6a6efc 100644
--- a/src/validators/prebuilt.rs
+++ b/src/validators/prebuilt.rs
@@ -40,6 +40,20 @@ impl Validator for PrebuiltValidator {
         self.schema_validator.get().validator.validate(py, input, state)
     }
 
+    fn validate_assignment<'py>(
+        &self,
+        py: Python<'py>,
+        obj: &Bound<'py, PyAny>,
+        field_name: &str,
+        field_value: &Bound<'py, PyAny>,
+        state: &mut ValidationState<'_, 'py>,
+    ) -> ValResult<PyObject> {
+        self.schema_validator
+            .get()
+            .validator
+            .validate_assignment(py, obj, field_name, field_value, state)
+    }
+
     fn get_name(&self) -> &str {
         self.schema_validator.get().validator.get_name()
     }
-- 
2.43.0


From 5f1f3e7a801d284f948c312afa64f4609a6d20fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:54 +0000
Subject: [PATCH 37/42] fix: partial validation was switched off by an earlier
 union choice or chain step, and applied to defaults

Tuple, model-fields and definition-ref validators switch allow_partial off and
leave it off, which decided how the next choice of a union, the lax half of
lax-or-strict or the next step of a chain saw the same incomplete input. A
default is complete whatever the input is: validate it as such.
---
 src/validators/chain.rs         | 7 ++++++-
 src/validators/lax_or_strict.rs | 3 +++
 src/validators/union.rs         | 6 ++++++
 src/validators/with_default.rs  | 3 +++
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/validators/chain.rs b/src/validators/chain.rs
index f7137d3..3f82a5b 100644
--- a/src/validators/chain.rs
+++ b/src/validators/chain.rs
@@ -76,11 +76,16 @@ impl Validator for ChainValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
+        let allow_partial = state.allow_partial;
         let mut steps_iter = self.steps.iter();
         let first_step = steps_iter.next().unwrap();
         let value = first_step.validate(py, input, state)?;
 
-        steps_iter.try_fold(value, |v, step| step.validate(py, v.bind(py), state))
+        steps_iter.try_fold(value, |v, step| {
+            // the previous step might have switched this off
+            state.allow_partial = allow_partial;
+            step.validate(py, v.bind(py), state)
+        })
     }
 
     fn get_name(&self) -> &str {
diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index 50bddd6..d78a9dd 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -68,12 +68,15 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
+                let allow_partial = state.allow_partial;
                 match self.strict_validator.validate(py, input, state) {
                     Ok(strict_result) => return Ok(strict_result),
                     // not a validation failure: an exception which must reach the caller
                     Err(e @ ValError::InternalErr(_)) => return Err(e),
                     Err(_) => (),
                 }
+                // the strict validator might have switched this off
+                state.allow_partial = allow_partial;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
             }
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 40c10d0..5ebf5a0 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -107,6 +107,7 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let old_exactness = state.exactness;
         let old_fields_set_count = state.fields_set_count;
+        let allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
@@ -115,6 +116,8 @@ impl UnionValidator {
         for (choice, label) in &self.choices {
             state.exactness = Some(Exactness::Exact);
             state.fields_set_count = None;
+            // the previous choice might have switched this off
+            state.allow_partial = allow_partial;
             let result = choice.validate(py, input, state);
             match result {
                 Ok(new_success) => match (state.exactness, state.fields_set_count) {
@@ -193,8 +196,11 @@ impl UnionValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
+        let allow_partial = state.allow_partial;
 
         for (validator, label) in &self.choices {
+            // the previous choice might have switched this off
+            state.allow_partial = allow_partial;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
                 otherwise => return otherwise,
diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index f293f47..d531845 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -197,7 +197,10 @@ impl Validator for WithDefaultValidator {
                     let result = if state.access_recursion_state(RecursionState::incr_depth) {
                         Err(ValError::new(ErrorTypeDefaults::RecursionLoop, dft.bind(py)))
                     } else {
+                        // the default is complete, however much of the input is missing
+                        let allow_partial = std::mem::replace(&mut state.allow_partial, false.into());
                         let result = self.validator.validate(py, dft.bind(py), state);
+                        state.allow_partial = allow_partial;
                         state.access_recursion_state(RecursionState::decr_depth);
                         result
                     };
-- 
2.43.0


From b221d3fdd4c0e4ecb1e329da3e5782e0cdb23cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 38/42] fix: dataclass extras schema was hidden from the
 garbage collector

---
 src/validators/dataclass.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 1965903..e7884df 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -134,7 +134,10 @@ impl BuildValidator for DataclassArgsValidator {
 
 impl_py_gc_traverse!(Field { validator });
 
-impl_py_gc_traverse!(DataclassArgsValidator { fields });
+impl_py_gc_traverse!(DataclassArgsValidator {
+    fields,
+    extras_validator
+});
 
 impl Validator for DataclassArgsValidator {
     fn validate<'py>(
-- 
2.43.0


From e80ee18f2235920d45abd6f799f2d65fd704ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:13 +0000
Subject: [PATCH 39/42] fix: include made union members fail for missing fields

---
 src/serializers/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 591bafb..c50aca5 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -212,7 +212,7 @@ impl GeneralFieldsSerializer {
 
         if extra.check.enabled()
             // If any of these are true we can't count fields
-            && !(extra.exclude_defaults || extra.exclude_unset || extra.exclude_none || exclude.is_some())
+            && !(extra.exclude_defaults || extra.exclude_unset || extra.exclude_none || include.is_some() || exclude.is_some())
             // Check for missing fields, we can't have extra fields here
             && self.required_fields > used_req_fields
         {
-- 
2.43.0


From 96aa57f6668339fa77fdf0ee08e71ea6ac3f0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:13 +0000
Subject: [PATCH 40/42] fix: include and exclude were dropped where a function
 serializer is not used

---
 src/serializers/type_serializers/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 6f9d8d8..38d5119 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -224,7 +224,7 @@ macro_rules! function_type_serializer {
                     Ok((true, v)) => self.return_serializer.to_python(v.bind(py), None, None, extra),
                     Ok((false, v)) => self
                         .get_fallback_serializer()
-                        .to_python(v.bind(py), None, None, extra),
+                        .to_python(v.bind(py), include, exclude, extra),
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra)?;
                         infer_to_python(value, include, exclude, extra)
@@ -266,7 +266,7 @@ macro_rules! function_type_serializer {
                         .serde_serialize(v.bind(py), serializer, None, None, extra),
                     Ok((false, v)) => {
                         self.get_fallback_serializer()
-                            .serde_serialize(v.bind(py), serializer, None, None, extra)
+                            .serde_serialize(v.bind(py), serializer, include, exclude, extra)
                     }
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra).map_err(py_err_se_err)?;
-- 
2.43.0


From 983422045ec430de32de192f3197f914604cf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:50 +0000
Subject: [PATCH 41/42] fix: to_json did not give a dataclass's computed fields
 their instance

Field serializers of computed fields failed, or got the instance of an outer
model, when a dataclass was serialized with to_json.
---
 src/serializers/fields.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index c50aca5..03dfc90 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -329,8 +329,9 @@ impl GeneralFieldsSerializer {
         extra: &Extra,
     ) -> Result<(), S::Error> {
         if let Some(ref computed_fields) = self.computed_fields {
-            if let Some(model) = model {
-                computed_fields.serde_serialize::<S>(model, map, &self.filter, include, exclude, extra)?;
+            if let Some(model_value) = model {
+                let cf_extra = Extra { model, ..*extra };
+                computed_fields.serde_serialize::<S>(model_value, map, &self.filter, include, exclude, &cf_extra)?;
             }
         }
         Ok(())
-- 
2.43.0


From 72cbb9d671d6a745faf894152c00919185119494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 42/42] fix: assigning the root of a root model did not mark it
 as set

A root model made from its default kept an empty fields set after
validate_assignment, unlike every other model.
---
 src/validators/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index d79e0c2..281594a 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -212,6 +212,9 @@ impl Validator for ModelValidator {
                 let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
                 let output = self.validator.validate(py, field_value, state)?;
 
+                if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
+                    fields_set.downcast::<PySet>()?.add(intern!(py, ROOT_FIELD))?;
+                }
                 force_setattr(py, model, intern!(py, ROOT_FIELD), output)?;
                 Ok(model.into_py_any(py)?)
             };
-- 
2.43.0

