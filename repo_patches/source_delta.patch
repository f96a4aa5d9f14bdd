From bdda7e99323bc3c72aa9a9522c952fdcb1ed6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 01/21] fix: DTensor.unfold returned the first mode's unfolding
 for every later mode

---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..c7f57c0 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From e9fc498efdefdb7c8d5e8c52ae1e441975687b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 02/21] fix: KTensor lambdas follow the dtype of the factors

---
 tensorD/base/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index c7f57c0..0fa3dca 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -139,10 +139,10 @@ class KTensor(object):
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
-                self.lambdas = tf.constant(lambdas)
+                self.lambdas = tf.constant(lambdas, dtype=self.U[0].dtype.base_dtype)
             else:
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
-- 
2.43.0


From 90f0372636c872a786524cb25d9876b28ea65d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 03/21] fix: t2mat modified the caller's axis list and rejected
 tuples

---
 tensorD/base/ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..b76aa62 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,15 +151,15 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
         if isinstance(c_axis, int):
-            indies.append(c_axis)
+            indies = indies + [c_axis]
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From 174cb0d86de43742cd5e69ae08134ebfcbbd6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 04/21] fix: predict failed on every trained model, and did not
 report an untrained Tucker model

---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 tensorD/factorization/tucker.py  | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From f26b298783a6f6055c66596bfe6c3c3668b38d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 05/21] fix: the published full tensor was stale when training
 stopped between validation steps

---
 tensorD/factorization/cp.py      | 4 ++--
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..84b76f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,8 +155,8 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
-                                                                feed_dict=self._feed_dict)
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run(
+                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..37d40cd 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,8 +238,8 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
-                                                             feed_dict=self._feed_dict)
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(
+                    [full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From 204368c7fb0a3cf9d70cb7a47103a382a2efca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 06/21] fix: a second model in the same graph failed on the
 first model's summaries

---
 tensorD/factorization/cp.py      |  8 +++++---
 tensorD/factorization/ncp.py     |  8 +++++---
 tensorD/factorization/ntucker.py |  8 +++++---
 tensorD/factorization/pitf.py    |  8 +++++---
 tensorD/factorization/tucker.py  | 14 +++++++++-----
 5 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 84b76f3..51856f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -40,6 +40,7 @@ class CP_ALS(BaseFact):
         self._full_op = None
         self._factor_update_op = None
         self._loss_op = None
+        self._sum_op = None
         self._obj_op = None
         self._rel_res_op = None
 
@@ -106,8 +107,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -117,6 +118,7 @@ class CP_ALS(BaseFact):
         self._full_op = full_op
         self._factor_update_op = assign_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -137,7 +139,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..93d5031 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -38,6 +38,7 @@ class NCP_BCU(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def predict(self, *key):
@@ -152,8 +153,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -166,6 +167,7 @@ class NCP_BCU(BaseFact):
         self._factor_update_op = A_update_op
         self._full_op = full_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -187,7 +189,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..0880788 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -39,6 +39,7 @@ class NTUCKER_BCU(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def predict(self, *key):
@@ -181,8 +182,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -198,6 +199,7 @@ class NTUCKER_BCU(BaseFact):
         self._train_op2 = tf.group(*Am_update_op2, gm_update_op2)
         self._full_op = full_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -221,7 +223,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..b4860e8 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -28,6 +28,7 @@ class PITF(BaseFact):
         self._sample_vector_update_op = None
         self._erate_op = None
         self._loss_op = None
+        self._sum_op = None
         self._e = None
         self._e1 = None
         self._e2 = None
@@ -92,14 +93,15 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                   tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
         self._erate_op = erate_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._sample_vector_update_op = sample_vector_update_op
         self._init_op = init_op
         self._e = e
@@ -123,7 +125,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 37d40cd..faa2663 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -24,6 +24,7 @@ class HOSVD(BaseFact):
         self._init_op = None
         self._core_op = None
         self._factor_update_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def build_model(self, args):
@@ -44,7 +45,7 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
         self._init_op = init_op
@@ -52,6 +53,7 @@ class HOSVD(BaseFact):
         self._factor_update_op = A
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
 
     def train(self, steps=None):
         """
@@ -67,7 +69,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -126,6 +128,7 @@ class HOOI(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def build_model(self, args):
@@ -175,8 +178,8 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
@@ -184,6 +187,7 @@ class HOOI(BaseFact):
         self._factor_update_op = assign_op
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -221,7 +225,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From 31ca7d378615696ceeb2563bbf55250b94a02bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 07/21] fix: the summary writer was never closed, which lost
 the last summaries and leaked a thread and a file

---
 tensorD/factorization/cp.py      | 1 +
 tensorD/factorization/ncp.py     | 1 +
 tensorD/factorization/ntucker.py | 1 +
 tensorD/factorization/pitf.py    | 1 +
 tensorD/factorization/tucker.py  | 2 ++
 5 files changed, 6 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 51856f3..51ff422 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -174,6 +174,7 @@ class CP_ALS(BaseFact):
                 break
 
 
+        sum_writer.close()
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 93d5031..f207e87 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -234,6 +234,7 @@ class NCP_BCU(BaseFact):
 
         self._lambdas = np.ones(shape=(1, args.rank))
 
+        sum_writer.close()
         print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 0880788..71ccda4 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -266,6 +266,7 @@ class NTUCKER_BCU(BaseFact):
             else:
                 sess.run(train_op2)
 
+        sum_writer.close()
         print('Non-Negative Tucker model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index b4860e8..d771268 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -151,6 +151,7 @@ class PITF(BaseFact):
 
         print('tarin finish,with RMSE=%.15f error rate=%.15f' % (loss_v, erate_v))
         self._is_train_finish = True
+        sum_writer.close()
         f1.close()
         f2.close()
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index faa2663..d79c614 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -83,6 +83,7 @@ class HOSVD(BaseFact):
             [self._loss_op, self._full_op, self._factor_update_op, self._core_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
         sum_writer.add_run_metadata(run_metadata, 'step1')
         sum_writer.add_summary(sum_msg, 1)
+        sum_writer.close()
         print('HOSVD model train finish, with RMSE = %f' % loss_v)
         self._is_train_finish = True
 
@@ -258,6 +259,7 @@ class HOOI(BaseFact):
             if nstall >= 3 or relerr2 < args.tol:
                 break
 
+        sum_writer.close()
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
-- 
2.43.0


From 3cb5932886ac91589c7d2d1c288088d414a3eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 08/21] fix: HOOI and PITF kept reporting a finished training
 while training again

---
 tensorD/factorization/pitf.py   | 2 ++
 tensorD/factorization/tucker.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index d771268..423903e 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -115,6 +115,8 @@ class PITF(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
         init_op = self._init_op
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index d79c614..a947a9e 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -214,6 +214,8 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From 495b49b6fbb40bbfa449688c19a165c5604596d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 09/21] fix: CP_ALS and HOOI measured every step's progress
 from the first step, so a stall was never noticed

---
 tensorD/factorization/cp.py     | 1 +
 tensorD/factorization/tucker.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 51ff422..e0ea077 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -172,6 +172,7 @@ class CP_ALS(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
 
         sum_writer.close()
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index a947a9e..2b42336 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -260,6 +260,7 @@ class HOOI(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
         sum_writer.close()
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
-- 
2.43.0


From 6c39aeb7f26a78047a76e50ae2c6e4df13480a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 10/21] fix: CP_ALS normalised by the signed column maximum,
 which gave NaN and unbounded factors on negative data

---
 tensorD/factorization/cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index e0ea077..7b705f4 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -94,8 +94,8 @@ class CP_ALS(BaseFact):
             non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
-                lambda_op = tf.reduce_max(tf.reshape(non_norm_A, shape=(shape[mode], args.rank)), axis=0)
-                assign_op[mode] = A[mode].assign(tf.div(non_norm_A, lambda_op))
+                lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)
+                assign_op[mode] = A[mode].assign(tf.div_no_nan(non_norm_A, lambda_op))
 
         with tf.name_scope('full-tensor') as scope:
             P = KTensor(assign_op, lambda_op)
-- 
2.43.0


From 1b8dae50dd194976eee07e3fe6c4df76a07a8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 11/21] fix: CP_ALS diverged on rank-deficient factors, as the
 pseudo-inverse kept singular values that are float32 noise

---
 tensorD/factorization/cp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 7b705f4..d9e4dc4 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -73,6 +73,10 @@ class CP_ALS(BaseFact):
         shape = input_data.get_shape().as_list()
         order = len(shape)
 
+        def pinv(V):
+            # singular values below the resolution of float32 are noise, inverting them makes the model diverge
+            return np.linalg.pinv(V, rcond=args.rank * np.finfo(np.float32).eps)
+
         with tf.name_scope('random-init') as scope:
             A = [tf.Variable(tf.random_uniform(shape=(shape[ii], args.rank), dtype=tf.float32), name='A-%d' % ii) for ii
                  in range(order)]
@@ -91,7 +95,7 @@ class CP_ALS(BaseFact):
                 XA = tf.matmul(mats[mode], ops.khatri(A, mode, True), name='XA-%d' % mode)
 
             V = ops.hadamard(AtA, skip_matrices_index=mode)
-            non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
+            non_norm_A = tf.matmul(XA, tf.py_func(pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
                 lambda_op = tf.reduce_max(tf.abs(tf.reshape(non_norm_A, shape=(shape[mode], args.rank))), axis=0)
-- 
2.43.0


From 67df722cf4d46fa4fda9f5b4be2368463b03535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 12/21] fix: NCP and NTucker returned NaN once all factors of a
 mode became zero

---
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f207e87..1075ee0 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -122,7 +122,7 @@ class NCP_BCU(BaseFact):
                 L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(V, compute_uv=False)))
             Gn = tf.subtract(tf.matmul(Am[mode], V), XA, name='G-%d' % mode)
             with tf.name_scope('A-update-%d' % mode) as scope:
-                A_update_op[mode] = A[mode].assign(tf.nn.relu(tf.subtract(Am[mode], tf.div(Gn, L_update_op[mode]))))
+                A_update_op[mode] = A[mode].assign(tf.nn.relu(tf.subtract(Am[mode], tf.div_no_nan(Gn, L_update_op[mode]))))
 
         with tf.name_scope('full-tensor') as scope:
             P = KTensor(A_update_op)
@@ -144,7 +144,7 @@ class NCP_BCU(BaseFact):
                 # if objective is increasing
                 Am_update_op2[mode] = Am[mode].assign(A0[mode])
                 # if objective is not increasing
-                wA_update_op1[mode] = wA[mode].assign(tf.minimum(w, tf.sqrt(L0[mode] / L[mode])))
+                wA_update_op1[mode] = wA[mode].assign(tf.minimum(w, tf.sqrt(tf.div_no_nan(L0[mode], L[mode]))))
                 Am_update_op1[mode] = Am[mode].assign(A[mode] + wA_update_op1[mode] * (A[mode] - A0[mode]))
                 with tf.control_dependencies([Am_update_op1[mode]]):
                     A0_update_op1[mode] = A0[mode].assign(A[mode])
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 71ccda4..131ab8d 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -131,7 +131,7 @@ class NTUCKER_BCU(BaseFact):
                 L_update_op[order] = L[order].assign(ops.max_single_value_mul(AtA_g))
             Bsq_update_op_g = Bsq.assign(ops.ttm(gm, AtA_g))
             Grad_g_update_op = Grad_g.assign(Bsq_update_op_g - ops.ttm(input_data, A, transpose=True))
-            g_update_op = g.assign(tf.nn.relu(gm - Grad_g_update_op / L_update_op[order]))
+            g_update_op = g.assign(tf.nn.relu(gm - tf.div_no_nan(Grad_g_update_op, L_update_op[order])))
 
         # update factor matrices A
         for mode in range(order):
@@ -148,7 +148,7 @@ class NTUCKER_BCU(BaseFact):
                 L0_update_op[mode] = L0[mode].assign(L[mode])
                 with tf.control_dependencies([L0_update_op[mode]]):
                     L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(Bsq_A, compute_uv=False)))
-                A_update_op[mode] = A[mode].assign(tf.nn.relu(tf.subtract(Am[mode], tf.div(GradA, L_update_op[mode]))))
+                A_update_op[mode] = A[mode].assign(tf.nn.relu(tf.subtract(Am[mode], tf.div_no_nan(GradA, L_update_op[mode]))))
 
         with tf.name_scope('full-tensor') as scope:
             P = TTensor(g, A_update_op)
@@ -170,11 +170,11 @@ class NTUCKER_BCU(BaseFact):
             Am_update_op2[mode] = Am[mode].assign(A0[mode])
             gm_update_op2 = gm.assign(g0)
             # if objective is not increasing
-            wA_update_op1[mode] = wA[mode].assign(tf.minimum(w, tf.sqrt(L0[mode] / L[mode])))
+            wA_update_op1[mode] = wA[mode].assign(tf.minimum(w, tf.sqrt(tf.div_no_nan(L0[mode], L[mode]))))
             Am_update_op1[mode] = Am[mode].assign(A[mode] + wA_update_op1[mode] * (A[mode] - A0[mode]))
             with tf.control_dependencies([Am_update_op1[mode]]):
                 A0_update_op1[mode] = A0[mode].assign(A[mode])
-        wA_update_op1[order] = wA[order].assign(tf.minimum(w, tf.sqrt(L0[order] / L[order])))
+        wA_update_op1[order] = wA[order].assign(tf.minimum(w, tf.sqrt(tf.div_no_nan(L0[order], L[order]))))
 
         gm_update_op1 = gm.assign(g + wA_update_op1[order] * (g - g0))
         with tf.control_dependencies([gm_update_op1]):
-- 
2.43.0


From fa340892a7d334e5ac88c46129dab2c824194c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 13/21] fix: the PITF adjoint operators lost repeated samples,
 and the TensorFlow one could not be built for the third matrix

---
 tensorD/base/pitf_ops.py       | 47 ++++++----------------------------
 tensorD/base/pitf_ops_numpy.py |  6 ++---
 2 files changed, 11 insertions(+), 42 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..4cf5125 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -360,10 +360,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
 
     Returns
     -------
-    mat_zero+dense_mat :
-    Return a matrix.Note that the matrix is sparse, and intermediate specific comutation in
-    this function is little complicated ,which force us to convert tf.Tensor to
-    tf.SparseTensor, and later restore dense form back.
+    Return a matrix, which holds at every position the sum of the samples taken there.
 
     Examples
     --------
@@ -380,49 +377,21 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
     >>> tf.Session().run(Y)
     >>> tf.Session().run(Z)
     """
+    # samples that hit the same position accumulate
     if dim == 0:
-        mat_zero = tf.zeros((shape[0], shape[1]), dtype=sample_vec.dtype)
-        # print('dim0 ready loop')
         indices, values = index_value_append(spl, sp_num, sample_vec, 0, 1)
-        # print('loop done.')
-        indices = tf.cast(indices, dtype=tf.int64)
-        values = tf.cast(values, dtype=sample_vec.dtype)
-        shape_t = tf.cast(shape, dtype=tf.int64)
-        mat_shape = shape_t[0:2]
-        # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        # print('ready to convert')
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False, name='adjoint_s2d_1')
-        # print('convert done.')
-        # print('adjoint_operator 1')
-        return mat_zero+dense_mat
+        mat_shape = [shape[0], shape[1]]
     elif dim == 1:
-        mat_zero = tf.zeros((shape[1], shape[2]), dtype=sample_vec.dtype)
         indices, values = index_value_append(spl, sp_num, sample_vec, 1, 2)
-        indices = tf.cast(indices, dtype=tf.int64)
-        values = tf.cast(values, dtype=sample_vec.dtype)
-        shape_t = tf.cast(shape, dtype=tf.int64)
-        mat_shape = shape_t[1:3]
-        # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_2')
-        print('adjoint_operator 2')
-        return mat_zero+dense_mat
+        mat_shape = [shape[1], shape[2]]
     elif dim == 2:
-        mat_zero = tf.zeros((shape[2], shape[0]), dtype=sample_vec.dtype)
         indices, values = index_value_append(spl, sp_num, sample_vec, 2, 0)
-        indices = tf.cast(indices, dtype=tf.int64)
-        values = tf.cast(values, dtype=sample_vec.dtype)
-        shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
-        # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-        print('adjoint_operator 3')
-        return mat_zero+dense_mat
+        mat_shape = [shape[2], shape[0]]
     else:
         raise ValueError
+    indices = tf.cast(indices, dtype=tf.int64)
+    values = tf.cast(values, dtype=sample_vec.dtype)
+    return tf.scatter_nd(indices, values, tf.cast(mat_shape, dtype=tf.int64), name='adjoint_%d' % (dim + 1))
 
 
 def Pomega_tensor(spl, tensor, sp_num):
diff --git a/tensorD/base/pitf_ops_numpy.py b/tensorD/base/pitf_ops_numpy.py
index 06ec8e5..ce789d9 100644
--- a/tensorD/base/pitf_ops_numpy.py
+++ b/tensorD/base/pitf_ops_numpy.py
@@ -101,19 +101,19 @@ def adjoint_operator(spl, sample_vec, tensor_shape,m ,dim=None):# sample_vec[i]?
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 0)
         X = np.zeros((tensor_shape[0], tensor_shape[1]))
         for i in range(m):
-            X[spl[0][i]][spl[1][i]] = sample_vec[i]
+            X[spl[0][i]][spl[1][i]] += sample_vec[i]
         return X
     elif dim == 1:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 1)
         Y = np.zeros((tensor_shape[1], tensor_shape[2]))
         for i in range(m):
-            Y[spl[1][i]][spl[2][i]] = sample_vec[i]
+            Y[spl[1][i]][spl[2][i]] += sample_vec[i]
         return Y
     elif dim == 2:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 2)
         Z = np.zeros((tensor_shape[2], tensor_shape[0]))
         for i in range(m):
-            Z[spl[2][i]][spl[0][i]] = sample_vec[i]
+            Z[spl[2][i]][spl[0][i]] += sample_vec[i]
         return Z
     else:
         print('error')
-- 
2.43.0


From ee8c2403edc542bb2426a66a5b06283b5469696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 14/21] fix: the TensorFlow shrinkage operator multiplied by V
 where V transposed is meant

---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 4cf5125..ae2a3f3 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -619,14 +619,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From ac94903d1f0837c487d06a484fed80f60dcc8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 15/21] fix: PITF drew new sample positions at every step

---
 tensorD/factorization/pitf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 423903e..8b358ad 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -46,7 +46,8 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        # the samples stay the same for a whole training, as the sample vector is accumulated over its steps
+        spl = [tf.Variable(index, trainable=False, name='sample_index') for index in (a, b, c)]
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From 8411cb9fc2106bc784b30e172355404ce0bb6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 16/21] fix: the TensorFlow cone projection branched on
 tensors, which fails in graph mode

---
 tensorD/base/pitf_ops.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index ae2a3f3..f29c7c5 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -514,14 +514,12 @@ def cone_projection_operator(x, t):
     >>>	t1,t2=cone_projection_operator(xx,tt)
     >>> tf.Session().run(t1)
     """
+    t = tf.cast(t, dtype=x.dtype)
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
-        tmp = (norm_x + t)/(2 * norm_x)
-        return tmp*x, tmp*norm_x
+    tmp = (norm_x + t)/(2 * norm_x)
+    outside_x = tf.where(t <= tf.negative(norm_x), tf.zeros_like(x), tmp*x)
+    outside_t = tf.where(t <= tf.negative(norm_x), tf.zeros_like(t), tmp*norm_x)
+    return tf.where(norm_x <= t, x, outside_x), tf.where(norm_x <= t, t, outside_t)
 
 
 def SVT(mat, tao):
-- 
2.43.0


From dc8542917da8c5dae8e9c66cb841063974b554a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 17/21] fix: trainings in several threads failed, as TensorFlow
 traces only one session run at a time

---
 tensorD/factorization/cp.py      |  5 +++--
 tensorD/factorization/env.py     |  5 +++++
 tensorD/factorization/ncp.py     |  7 ++++---
 tensorD/factorization/ntucker.py |  7 ++++---
 tensorD/factorization/tucker.py  | 10 ++++++----
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index d9e4dc4..6e3e03e 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,8 +155,9 @@ class CP_ALS(BaseFact):
                         step % args.validation_internal == 0 and args.validation_internal != -1):
                 run_options = tf.RunOptions(trace_level=tf.RunOptions.FULL_TRACE)
                 run_metadata = tf.RunMetadata()
-                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res, sum_msg = sess.run(
-                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+                with self._env.trace_lock:
+                    self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res, sum_msg = sess.run(
+                        [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
                 sum_writer.add_run_metadata(run_metadata, 'step%d' % step)
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
diff --git a/tensorD/factorization/env.py b/tensorD/factorization/env.py
index bfbad33..34adada 100644
--- a/tensorD/factorization/env.py
+++ b/tensorD/factorization/env.py
@@ -1,8 +1,13 @@
 # Created by ay27 at 17/6/5
+import threading
+
 import tensorflow as tf
 
 
 class Environment(object):
+    # TensorFlow can trace only one session run of a process at a time, a second one fails
+    trace_lock = threading.RLock()
+
     def __init__(self, data_provider, summary_path=None):
         self._data_provider = data_provider
         self._sum_path = summary_path
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 1075ee0..bb9e5ec 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -202,9 +202,10 @@ class NCP_BCU(BaseFact):
                                 step % args.validation_internal == 0 and args.validation_internal != -1):
                 run_options = tf.RunOptions(trace_level=tf.RunOptions.FULL_TRACE)
                 run_metadata = tf.RunMetadata()
-                self._factors, self._full_tensor, loss_v, obj, rel_res, sum_msg, _ = sess.run(
-                    [factor_update_op, full_op, loss_op, obj_op, rel_res_op, sum_op, train_op],
-                    feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+                with self._env.trace_lock:
+                    self._factors, self._full_tensor, loss_v, obj, rel_res, sum_msg, _ = sess.run(
+                        [factor_update_op, full_op, loss_op, obj_op, rel_res_op, sum_op, train_op],
+                        feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
                 sum_writer.add_run_metadata(run_metadata, 'step%d' % step)
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 131ab8d..c403d1d 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -237,9 +237,10 @@ class NTUCKER_BCU(BaseFact):
                                 step % args.validation_internal == 0 and args.validation_internal != -1):
                 run_options = tf.RunOptions(trace_level=tf.RunOptions.FULL_TRACE)
                 run_metadata = tf.RunMetadata()
-                self._factors, self._full_tensor, loss_v, obj, rel_res, sum_msg, _ = sess.run(
-                    [factor_update_op, full_op, loss_op, obj_op, rel_res_op, sum_op, train_op],
-                    feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+                with self._env.trace_lock:
+                    self._factors, self._full_tensor, loss_v, obj, rel_res, sum_msg, _ = sess.run(
+                        [factor_update_op, full_op, loss_op, obj_op, rel_res_op, sum_op, train_op],
+                        feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
                 sum_writer.add_run_metadata(run_metadata, 'step%d' % step)
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 2b42336..79d3858 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -79,8 +79,9 @@ class HOSVD(BaseFact):
         run_metadata = tf.RunMetadata()
 
 
-        loss_v, self._full_tensor, self._factors, self._core, sum_msg = sess.run(
-            [self._loss_op, self._full_op, self._factor_update_op, self._core_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+        with self._env.trace_lock:
+            loss_v, self._full_tensor, self._factors, self._core, sum_msg = sess.run(
+                [self._loss_op, self._full_op, self._factor_update_op, self._core_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
         sum_writer.add_run_metadata(run_metadata, 'step1')
         sum_writer.add_summary(sum_msg, 1)
         sum_writer.close()
@@ -239,8 +240,9 @@ class HOOI(BaseFact):
                                 step % args.validation_internal == 0 and args.validation_internal != -1):
                 run_options = tf.RunOptions(trace_level=tf.RunOptions.FULL_TRACE)
                 run_metadata = tf.RunMetadata()
-                loss_v, self._full_tensor, self._factors, self._core, obj, rel_res, sum_msg = sess.run(
-                    [loss_op, full_op, factor_update_op, core_op, obj_op, rel_res_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+                with self._env.trace_lock:
+                    loss_v, self._full_tensor, self._factors, self._core, obj, rel_res, sum_msg = sess.run(
+                        [loss_op, full_op, factor_update_op, core_op, obj_op, rel_res_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
                 sum_writer.add_run_metadata(run_metadata, 'step%d' % step)
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
-- 
2.43.0


From 780b6b24b4b84c7d51fb5e4fb414be9b3ca64c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 18/21] fix: the TensorFlow cone projection rounded a Python
 number to single precision

---
 tensorD/base/pitf_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index f29c7c5..9a74775 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -514,7 +514,7 @@ def cone_projection_operator(x, t):
     >>>	t1,t2=cone_projection_operator(xx,tt)
     >>> tf.Session().run(t1)
     """
-    t = tf.cast(t, dtype=x.dtype)
+    t = tf.cast(t, dtype=x.dtype) if isinstance(t, (tf.Tensor, tf.Variable)) else tf.constant(t, dtype=x.dtype)
     norm_x = tf.norm(x, ord='euclidean')
     tmp = (norm_x + t)/(2 * norm_x)
     outside_x = tf.where(t <= tf.negative(norm_x), tf.zeros_like(x), tmp*x)
-- 
2.43.0


From b662170740fe9ad927bc2e4ba33c1c63d402de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 19/21] fix: ttm of tensors of order 14 and above, whose labels
 collided

The labels of the result and of the tensor overlapped in the alphabet, so
that matrices were contracted with the wrong modes, silently when all modes
were given.
---
 tensorD/base/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index b76aa62..c0945cb 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -341,7 +341,8 @@ def ttm(tensor, matrices, axis=None, transpose=False, skip_matrices_index=None):
 
         # example: xyz,by,cz->xbc
         tensor_start = ord('z') - order + 1
-        mats_start = ord('a')
+        # above order 13 the lower case letters are too few for two sets of labels
+        mats_start = ord('a') if order <= 13 else ord('A')
         tensor_op = ''.join([chr(tensor_start + i) for i in range(order)])
         if transpose:
             mat_op = ','.join([chr(tensor_start + i) + chr(mats_start + i) for i in axis])
-- 
2.43.0


From acc2f4a2dace5ca0bf52ca88a268adde769b2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:30 +0000
Subject: [PATCH 20/21] fix: kron of more than 13 and khatri of more than 25
 matrices

The labels of the contraction ran past the alphabet (or met the common one)
and TensorFlow rejected the expression.
---
 tensorD/base/ops.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index c0945cb..da65dd5 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -1,5 +1,6 @@
 # Created by ay27 at 17/1/11
 from functools import reduce
+from string import ascii_letters
 
 import tensorflow as tf
 import numpy as np
@@ -425,10 +426,9 @@ def kron(matrices, skip_matrices_index=None, reverse=False):
         matrices = _skip(matrices, skip_matrices_index)
         if reverse:
             matrices = matrices[::-1]
-        start = ord('a')
-        source = ','.join(chr(start + i) + chr(start + i + 1) for i in range(0, 2 * len(matrices), 2))
-        row = ''.join(chr(start + i) for i in range(0, 2 * len(matrices), 2))
-        col = ''.join(chr(start + i) for i in range(1, 2 * len(matrices), 2))
+        row = ascii_letters[0:2 * len(matrices):2]
+        col = ascii_letters[1:2 * len(matrices):2]
+        source = ','.join(i + j for i, j in zip(row, col))
         operation = source + '->' + row + col
         tmp = tf.einsum(operation, *matrices)
         r_size = np.prod([mat.get_shape()[0].value for mat in matrices])
@@ -460,10 +460,9 @@ def khatri(matrices, skip_matrices_index=None, reverse=False):
         matrices = _skip(matrices, skip_matrices_index)
         if reverse:
             matrices = matrices[::-1]
-        start = ord('a')
         common_dim = 'z'
 
-        target = ''.join(chr(start + i) for i in range(len(matrices)))
+        target = ascii_letters.replace(common_dim, '')[:len(matrices)]
         source = ','.join(i + common_dim for i in target)
         operation = source + '->' + target + common_dim
         tmp = tf.einsum(operation, *matrices)
-- 
2.43.0


From 7b4378bd38f3487d0daa1eb4fecbec34b2f4f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 21/21] fix: the tensor reader failed on a full_shape given as
 an array

---
 tensorD/dataproc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/dataproc/reader.py b/tensorD/dataproc/reader.py
index 43afc39..10b8605 100644
--- a/tensorD/dataproc/reader.py
+++ b/tensorD/dataproc/reader.py
@@ -49,7 +49,7 @@ class TensorReader(object):
             idx[row] = np.array([int(entry[mode]) for mode in range(order)])
             value[row] = float(entry[-1])
 
-        if full_shape==None:
+        if full_shape is None:
             max_dim = np.max(idx, axis=0) + np.ones(order).astype(int)
         else:
             max_dim = full_shape
-- 
2.43.0

