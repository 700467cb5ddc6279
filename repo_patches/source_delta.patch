From d35ec3ce87d4386ee92dfd60bf19c1b24ce41598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 01/49] fix: get_frame applies the alive mask like forward does

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..3a54f95 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -337,6 +337,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..351745b 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -565,6 +565,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From 5c7de0d637b7200b03250b5ddb30f8a3a94e35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 02/49] fix: size the NCA network for the identity and
 neighborhood channels it is fed

---
 yuca/ca/neural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..b5f3248 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -266,7 +266,7 @@ class NCA(CA):
         
         self.weights_layer = nn.Sequential(\
                 nn.Conv2d(\
-                    self.external_channels + self.internal_channels,\
+                    2 * self.internal_channels,\
                     self.hidden_channels, 1, \
                     padding=0, \
                     padding_mode = self.conv_mode, bias=False),\
-- 
2.43.0


From fdb5fa30b4276141050db7dab84611ccc95eb21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 03/49] fix: restore the saved identity kernel

---
 yuca/ca/continuous.py         | 8 ++++++--
 yuca/ca/neural.py             | 8 ++++++--
 yuca/ca/reaction_diffusion.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 351745b..82c0b64 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -109,10 +109,14 @@ class CCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config stores the identity kernel as "id_kernel_config"
+        self.id_kernel_config = copy.deepcopy(config.get("identity_kernel_config", \
+                config.get("id_kernel_config", None)))
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index b5f3248..193a73f 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -139,10 +139,14 @@ class NCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config stores the identity kernel as "id_kernel_config"
+        self.id_kernel_config = copy.deepcopy(config.get("identity_kernel_config", \
+                config.get("id_kernel_config", None)))
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..2c477c2 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -77,10 +77,14 @@ class RxnDfn(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config stores the identity kernel as "id_kernel_config"
+        self.id_kernel_config = copy.deepcopy(config.get("identity_kernel_config", \
+                config.get("id_kernel_config", None)))
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
-- 
2.43.0


From 826103a247b3e2deb47d87bb58caa6511cea12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 04/49] fix: save growth functions in the form they are built
 from

---
 yuca/ca/continuous.py | 46 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 82c0b64..c4d0504 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -176,6 +176,41 @@ class CCA(CA):
             print(f"attempted to read {filepath}, not found")
             #assert False, f"{filepath} not found"
         
+    def make_fn_config(self, fn_config, fns):
+        """
+        a copy of fn_config carrying the current parameters of the function 
+        it describes, in the form the function is instantiated from
+        """
+
+        config = copy.deepcopy(fn_config)
+
+        params = {}
+        for name, param in fns[0].named_parameters():
+            params[name] = param.detach().cpu().reshape(-1).tolist()
+
+        if config["name"] in ["Gaussian", "DoGaussian"]:
+            config["mu"] = params["mu"][0]
+            config["sigma"] = params["sigma"][0]
+        elif config["name"] == "DoubleGaussian":
+            config["mu"] = params["mu"]
+            config["sigma"] = params["sigma"]
+        elif config["name"] == "Polynomial":
+            config["coefficients"] = params["coefficients"]
+        elif config["name"] == "GaussianMixture":
+            parameters = []
+            # parameters are (amplitude, mu, sigma) triples or (mu, sigma) pairs
+            has_amplitudes = len(config.get("parameters", [0.5, 0.15])) % 3 == 0
+
+            for amplitude, gaussian in zip(fns[0].amplitudes, fns[0].gaussians):
+                if has_amplitudes:
+                    parameters.append(amplitude.item())
+                parameters.append(gaussian.mu.item())
+                parameters.append(gaussian.sigma.item())
+
+            config["parameters"] = np.array(parameters)
+
+        return config
+
     def make_config(self):
 
         config = {}
@@ -218,8 +253,8 @@ class CCA(CA):
                     "mode": 1}
             self.genesis_fn_config = genesis_config
         else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
+            genesis_config = self.make_fn_config(self.genesis_fn_config, \
+                    self.genesis_fns)
 
         #if "parameters" in genesis_config.keys():
 
@@ -234,8 +269,8 @@ class CCA(CA):
                     "mode": 1}
             self.persistence_fn_config = persistence_config
         else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
+            persistence_config = self.make_fn_config(self.persistence_fn_config, \
+                    self.persistence_fns)
 
         #if "parameters" in persistence_config.keys():
 
@@ -352,6 +387,9 @@ class CCA(CA):
                 self.add_genesis_fn(genesis_config)
                 self.add_persistence_fn(persistence_config)
 
+                if pp == 0:
+                    self.genesis_fn_config = genesis_config
+                    self.persistence_fn_config = persistence_config
 
         self.set_dt(0.1)
 
-- 
2.43.0


From 6283fafd3e2c99b8945aec4ce3632e71a215dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 05/49] fix: record the default kernel so its radius can be
 changed

---
 yuca/ca/continuous.py | 4 ++++
 yuca/ca/neural.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index c4d0504..ede56f0 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -325,6 +325,10 @@ class CCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": self.kernel_params}, \
+                "radius": self.kernel_radius}
+
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 193a73f..e490020 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -113,6 +113,10 @@ class NCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": self.kernel_params}, \
+                "radius": self.kernel_radius}
+
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
-- 
2.43.0


From 3ac204d8e812d1291e26919f60473a12cef7f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 06/49] fix: kernel parameters stay in the kernel configuration
 they belong to

---
 yuca/ca/common.py     | 42 +++++++++++++++++++++++++++++++++--------
 yuca/ca/continuous.py | 19 +++----------------
 yuca/ca/neural.py     | 44 ++++++-------------------------------------
 3 files changed, 43 insertions(+), 62 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 3a54f95..03e3ac8 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -273,20 +273,46 @@ class CA(nn.Module):
 
     def update_kernel_params(self, kernel_kwargs):
 
-        self.kernel_params = None
+        self.kernel_params = np.array([])
+
+        for key in kernel_kwargs.keys():
+            self.kernel_params = np.append(self.kernel_params, \
+                    np.array(kernel_kwargs[key]))
+
+    def set_kernel_params(self, kernel_params):
+        """
+        write kernel parameters, in the order update_kernel_params reads them, 
+        into the kernel config and rebuild the kernel from it
+        """
+
+        self.kernel_params = np.array(kernel_params)
+
+        kernel_config = copy.deepcopy(self.neighborhood_kernel_config)
+        kernel_kwargs = kernel_config.get("kernel_kwargs", {})
+        param_start = 0
 
         for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
+            old_value = np.array(kernel_kwargs[key])
+            param_stop = param_start + old_value.size
+            new_value = self.kernel_params[param_start:param_stop]
+
+            if len(old_value.shape):
+                kernel_kwargs[key] = 1.0 * new_value.reshape(old_value.shape)
             else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
+                kernel_kwargs[key] = float(new_value[0])
 
-    def set_kernel_config(self, kernel_config):
+            param_start = param_stop
 
         self.neighborhood_kernel_config = kernel_config
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+
+        self.add_neighborhood_kernel(get_kernel(kernel_config))
+        self.initialize_neighborhood_layer()
+        self.to_device(self.my_device)
+
+    def set_kernel_config(self, kernel_config):
+
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
+        self.update_kernel_params(kernel_config.get("kernel_kwargs", {}))
 
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index ede56f0..a1d3dcc 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -121,14 +121,8 @@ class CCA(CA):
 
         self.initialize_id_layer()
 
-        self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
-        nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
-
-        # update self.kernel_radius
-        self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
-        self.initialize_neighborhood_layer()
+        # update self.kernel_radius and self.kernel_params
+        self.set_kernel_config(config["neighborhood_kernel_config"])
 
         self.add_genesis_fn(config["genesis_config"])
         self.add_persistence_fn(config["persistence_config"])
@@ -725,14 +719,7 @@ class CCA(CA):
                 param_start = param_stop
 
         param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
-
-        nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                parameters=self.kernel_params)
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-        self.initialize_neighborhood_layer()
-        self.to_device(self.my_device)
+        self.set_kernel_params(params[param_start:param_stop])
 
     def no_grad(self):
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e490020..3b3e235 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -83,14 +83,11 @@ class NCA(CA):
 
     def update_kernel_params(self, kernel_kwargs):
 
-        self.kernel_params = None
+        self.kernel_params = np.array([])
 
         for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
+            self.kernel_params = np.append(self.kernel_params, \
+                    np.array(kernel_kwargs[key]))
 
     def default_init(self):
 
@@ -125,16 +122,6 @@ class NCA(CA):
         self.set_dt(0.1)
 
 
-    def set_kernel_config(self, kernel_config):
-
-        self.neighborhood_kernel_config = kernel_config
-        self.kernel_radius = self.neighborhood_kernel_config["radius"]
-        nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
@@ -155,20 +142,8 @@ class NCA(CA):
 
         self.initialize_id_layer()
 
-        self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
-        self.kernel_radius = self.neighborhood_kernel_config["radius"]
-        nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            pass
-        else:
-            self.neighborhood_kernel_config["kernel_kwargs"] = {}
-
-        self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
-            
-
-        # update self.kernel_radius
-        self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
-        self.initialize_neighborhood_layer()
+        # update self.kernel_radius and self.kernel_params
+        self.set_kernel_config(config["neighborhood_kernel_config"])
 
         if "dt" in config.keys():
             self.set_dt(config["dt"])
@@ -364,14 +339,7 @@ class NCA(CA):
 
         if self.kernel_params is not None:
             param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
-
-            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                    parameters=self.kernel_params)
-
-            self.add_neighborhood_kernel(nbhd_kernel)
-            self.initialize_neighborhood_layer()
-            self.to_device(self.my_device)
+            self.set_kernel_params(params[param_start:param_stop])
 
     def no_grad(self):
 
-- 
2.43.0


From ba036d64796edd9371cb55ee0277be998f09ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 07/49] fix: do not save the paths an automaton was built from

---
 yuca/ca/continuous.py | 5 ++++-
 yuca/ca/neural.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index a1d3dcc..4342e8c 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -279,7 +279,10 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = self.instant_kwargs
+        config["instant_kwargs"] = dict(self.instant_kwargs)
+        # restoring this config must not load the files this CA was built from
+        config["instant_kwargs"].pop("ca_config", None)
+        config["instant_kwargs"].pop("input_filepath", None)
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 3b3e235..6ea67dd 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -224,7 +224,10 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = self.instant_kwargs
+        config["instant_kwargs"] = dict(self.instant_kwargs)
+        # restoring this config must not load the files this CA was built from
+        config["instant_kwargs"].pop("ca_config", None)
+        config["instant_kwargs"].pop("input_filepath", None)
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
-- 
2.43.0


From fa970903852f919fa4d37178395a9403c46f81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 08/49] fix: Gray-Scott configs restore their kernel radius

---
 yuca/ca/reaction_diffusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 2c477c2..577888f 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -90,8 +90,9 @@ class RxnDfn(CA):
         self.initialize_id_layer()
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
-        self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.neighborhood_kernel_config = copy.deepcopy(config["neighborhood_kernel_config"])
 
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
 
-- 
2.43.0


From 5f773a52214ed7c216075dbcdb20368556d116c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 09/49] fix: automata do not share parameters with the config
 they load

---
 yuca/ca/continuous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 4342e8c..34acc06 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -107,6 +107,8 @@ class CCA(CA):
         self.genesis_fns = []
         self.persistence_fns = []
 
+        # parameters may share memory with config, which is the caller's
+        config = copy.deepcopy(config)
         self.config = config
 
         # make_config stores the identity kernel as "id_kernel_config"
-- 
2.43.0


From e56055bd4a0b9262164033cae063436f673101a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 10/49] fix: the clock accepts any form of time step

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 2 +-
 yuca/ca/reaction_diffusion.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 03e3ac8..0514ed3 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -357,7 +357,7 @@ class CA(nn.Module):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 34acc06..a842452 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -604,7 +604,7 @@ class CCA(CA):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
         #new_universe = self.weights_layer(new_universe)
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 577888f..7187c16 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -375,7 +375,7 @@ class RxnDfn(CA):
         new_universe = universe + self.dt * update 
         new_universe = torch.clamp(new_universe,0,1.)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
-- 
2.43.0


From a17b7b281875ea157fbfeee81d6503ffb8ecdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 11/49] fix: signed mode scales the whole difference of
 Gaussians

---
 yuca/activations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..43c813a 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -369,7 +369,7 @@ class DoGaussian(nn.Module):
                 - (((x-self.dx) - self.mu) / (eps + self.sigma))**2 / 2 )
 
         if self.mode:
-            result = gaussian_1 - gaussian_2 * 2 -1
+            result = (gaussian_1 - gaussian_2) * 2 -1
         else:
             result = gaussian_1 - gaussian_2
 
-- 
2.43.0


From b00537f544eb3c3e4ba1d8b08c4b3059764b0fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 12/49] fix: the adaptive automaton keeps its time step
 readable and always has a step size

---
 yuca/code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..ca4d3ba 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -62,6 +62,8 @@ class CODE(CCA):
         keep = False
         
         current_step = min([self.prev_dt * 2, self.max_dt])
+        # no step has been tried yet
+        step_mse = torch.tensor(float("inf"))
         # Don't track gradients while estimating step size
         with torch.no_grad():
 
@@ -101,6 +103,8 @@ class CODE(CCA):
         self.nmse = step_mse            
         self.t_count += self.dt #min([self.dt, self.static_dt - total_step])
         self.prev_dt = self.dt
+        # self.dt is a tensor between steps
+        self.set_dt(self.dt)
 
         grid = self.get_new_grid(grid)
 #        if self.static_dt -total_step > self.dt:
-- 
2.43.0


From 82bdba5acfa65ff245819140ab56af36a5184c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 13/49] fix: the random-step automaton keeps its time step
 readable

---
 yuca/random_step_ca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/random_step_ca.py b/yuca/random_step_ca.py
index 2541f3a..5232242 100644
--- a/yuca/random_step_ca.py
+++ b/yuca/random_step_ca.py
@@ -89,6 +89,8 @@ class RandomStepCA(CCA):
     def forward(self, universe, mode=0):
 
         grid, self.prev_dt = self.get_new_grid(universe)
+        # self.dt is a tensor between steps
+        self.set_dt(self.prev_dt)
         
         return grid
 
-- 
2.43.0


From 50f02c46c8e88c2ea24cab1427cfa9c83dd15f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 14/49] fix: carry the selected elites' own parameters into the
 next population

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..0873a25 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,7 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            self.population[kk].set_params(1.0 * elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 1d9a285e02981c3b28aa70eabb2406d45468ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 15/49] fix: initialise the population once per seed

---
 yuca/cmaes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 0873a25..c0310d4 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -441,7 +441,6 @@ class CMAES():
 
             seed_all(my_seed)
             self.reset()
-            self.initialize_population()
             
             self.generation = 0
 
-- 
2.43.0


From ed877e5803cde7606e489b4fff455de868cc57e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 16/49] fix: runs with several seeds are independent of each
 other

---
 yuca/cmaes.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index c0310d4..94b2a40 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -420,15 +420,7 @@ class CMAES():
 
         t0 = time.time()
 
-        progress = {}
-        progress["elite_params"] = []
-        progress["elite_configs"] = []
-        progress["mean_fitness"] = []
-        progress["max_fitness"] = []
-        progress["min_fitness"] = []
-        progress["std_dev_fitness"] = []
-        progress["kwargs"] = self.kwargs
-        progress["distribution"] = []
+        starting_elites = self.elite_params
 
         print(f"begin evolution with:\n" \
                 f"selection mode {self.selection_mode} " \
@@ -439,6 +431,19 @@ class CMAES():
         for my_seed in self.my_seed:
             print(f"random seed {my_seed}")
 
+            # every seed is a run of its own
+            progress = {}
+            progress["elite_params"] = []
+            progress["elite_configs"] = []
+            progress["mean_fitness"] = []
+            progress["max_fitness"] = []
+            progress["min_fitness"] = []
+            progress["std_dev_fitness"] = []
+            progress["kwargs"] = self.kwargs
+            progress["distribution"] = []
+
+            self.elite_params = starting_elites
+
             seed_all(my_seed)
             self.reset()
             
-- 
2.43.0


From 488a4e2ae830ebb66d66848ef37664cf14330cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 17/49] fix: early stopping ranks the population that was
 evaluated

---
 yuca/cmaes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 94b2a40..e5ef0ea 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -521,7 +521,10 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
+                # the last generation evaluated is ranked, not resampled
+                stop_early = np.std(fitness) < 0.02 and generation > 6
+
+                if stop_early or generation == self.generations - 1:
                     self.rank_population(fitness, seed=my_seed)
                 else:
                     self.update_population(fitness)
@@ -565,8 +568,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if stop_early:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From 53292a228fdb8345a2c3c0c95e2aef2cfd03aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 18/49] fix: a single worker evaluates the population itself

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index e5ef0ea..8e77978 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -472,7 +472,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From f70b2ffc2b63ca74783e04bb2b0f9804cbdfc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 19/49] fix: a CPPN built from parameters uses them

---
 yuca/cppn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..73fe174 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,9 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if "params" in kwargs.keys():
+            CPPN.set_params(self, kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From 71bb24f1a60958817553c21f20b3cbd6a3de404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 20/49] fix: coevolution saves the rule of its best individual

---
 yuca/cmaes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 8e77978..1777db4 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -180,6 +180,10 @@ class CMAES():
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def get_rule_params(self, agent):
+
+        return agent.get_params()
+
     def rank_population(self, fitness, seed=0):
         """
         for the final generation, fitness scores are ranked deterministically
@@ -227,7 +231,7 @@ class CMAES():
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
         if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
+            self.env.ca.set_params(self.get_rule_params(elite_pop[0]))
 
         self.env.ca.save_config(ca_config_filepath)
 
@@ -630,6 +634,12 @@ class CMACES(CMAES):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
+    def get_rule_params(self, agent):
+
+        rule_action, pattern_action = agent.get_action()
+
+        return rule_action
+
     def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):
 
         fitness_replicates = []
-- 
2.43.0


From 0e5b81e6bcfcb15cc8a46e97e8320511662d9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 21/49] fix: the mantle's environment is ready to make elite
 configurations

---
 yuca/cmaes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 1777db4..1b382a3 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -360,6 +360,11 @@ class CMAES():
         
         restore_steps = 1 * self.env.ca_steps
         self.env.ca_steps = 2
+
+        # with workers this environment has not evaluated anything yet
+        self.env.reset()
+        self.env.to_device(self.my_device)
+
         for hh in range(self.elite_params.shape[0]):
 
             
-- 
2.43.0


From b59250a409545964028999687ad3be2ba73b9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 22/49] fix: a pattern that only loses mass is not frozen

---
 yuca/wrappers/glider_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 44c1d3e..7612584 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -124,7 +124,7 @@ class GliderWrapper():
             dgrid = action - old_grid
             old_grid = 1.0  * action
 
-            if mean_grid == 0.0 or dgrid.max() <= 0.00001:
+            if mean_grid == 0.0 or dgrid.abs().max() <= 0.00001:
                 break
 
         # take stepwise average 
-- 
2.43.0


From bbcef6732d62ea8dcecd8574eeb201f103ccb070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 23/49] fix: the glider's center of mass is that of one
 pattern, not of the batch

---
 yuca/wrappers/glider_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 7612584..5ab76a9 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -98,7 +98,7 @@ class GliderWrapper():
             if step % (score_every) == 0:# or step == (self.ca_steps - 1):
                 
 
-                y_displacement_1 = (self.y_grid * action[0:1]).sum() / (eps + action.sum())
+                y_displacement_1 = (self.y_grid * action[0:1]).sum() / (eps + action[0:1].sum())
 
 
                 # penalize growth/decay, i.e. incentivize morphological homeostasis
-- 
2.43.0


From 859516137eeeff47c9c42a0cafe89eda57a61c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 24/49] fix: wrapping around backwards is not a leap forwards

---
 yuca/wrappers/glider_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 5ab76a9..49d63cc 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -112,6 +112,8 @@ class GliderWrapper():
                     if y_displacement_0 > (kernel_span - 2) and y_displacement_1 < 2:
                         # account for wraparound errors
                         y_displacement += kernel_span
+                    elif y_displacement_1 > (kernel_span - 2) and y_displacement_0 < 2:
+                        y_displacement -= kernel_span
 
                     reward += y_displacement.cpu() - growth.cpu() #* 150
                 else: 
-- 
2.43.0


From 3445955ceeec9c520f31e6480bb1c5bee8c9f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 25/49] fix: a pattern on the first row has a position too

---
 yuca/wrappers/glider_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 49d63cc..67b3c50 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -81,7 +81,7 @@ class GliderWrapper():
         max_grid = 0.31 #action.max()
 
         # avoid the "tree falling over" hack 
-        y_displacement_0 = torch.tensor(0.0) #None 
+        y_displacement_0 = None
 
         old_grid = 1.0  * action
         score_every = 1 #max([self.ca_steps // 8 , 1])
@@ -105,7 +105,7 @@ class GliderWrapper():
                 growth =  torch.abs(1.0 - (mean_grid / (mean_grid_0 + eps)))
                 mean_grid_0 = 1.0 * mean_grid
 
-                if y_displacement_0 != 0.0: #None:
+                if y_displacement_0 is not None:
 
                     y_displacement = y_displacement_1 - y_displacement_0
 
-- 
2.43.0


From 77fa84b819eb1c62b3fa6d03f9b4b5799263e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 26/49] fix: pattern agents can have any number of channels

---
 yuca/cppn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index 73fe174..14a003e 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -138,9 +138,9 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        # one set of inputs (and one distance) for each channel
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From 77739a137abed2fbd3f77dca6654cbf8a5d3f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 27/49] fix: a filtering rule agent also filters the parameters
 it was built with

---
 yuca/params_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/params_agent.py b/yuca/params_agent.py
index 4c8a4a2..7fcb230 100644
--- a/yuca/params_agent.py
+++ b/yuca/params_agent.py
@@ -39,7 +39,7 @@ class ParamsAgent():
         
         if self.filter_params:
             # filters for evolving universes with gaussian update functions
-            self.params = np.abs(self.params)
+            self.params = np.clip(np.abs(self.params), 0.0001, 1.0)
 
         return self.params
 
-- 
2.43.0


From a4b37f397293204f0fd99f5e41dd8c86e8b59989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 28/49] fix: pattern inputs that vanish on a small grid are not
 divided by their maximum

---
 yuca/cppn.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index 14a003e..95e785b 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -68,13 +68,13 @@ class CPPN(nn.Module):
         sinr_8 = np.sin(rr*np.pi*8) 
         sinr_4 = np.sin(rr*np.pi*4) 
 
-        sinr_16r /= sinr_16r.max()
-        sinr_8r /= sinr_8r.max()
-        sinr_4r /= sinr_4r.max()
+        sinr_16r /= max(sinr_16r.max(), eps)
+        sinr_8r /= max(sinr_8r.max(), eps)
+        sinr_4r /= max(sinr_4r.max(), eps)
 
-        sinr_16 /= sinr_16.max()
-        sinr_8 /= sinr_8.max()
-        sinr_4 /= sinr_4.max()
+        sinr_16 /= max(sinr_16.max(), eps)
+        sinr_8 /= max(sinr_8.max(), eps)
+        sinr_4 /= max(sinr_4.max(), eps)
 
 
         sinr_16r = torch.tensor(sinr_16r).reshape(\
-- 
2.43.0


From de1bbc197354475acb42f9f4e83eed37c2a1ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 29/49] fix: a quiet librarian stores the configuration too

---
 yuca/zoo/librarian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..1c147a8 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -65,11 +65,11 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
-            else:
+        if config_name == "unspecified":
+            if ca_config != "unspecified":
                 config_name = ca_config
+            elif self.verbose:
+                print(f"warning, no config supplied for {pattern_name}")
 
         with open(meta_path, "w") as f:
             f.write(f"ca_config,{config_name}")
-- 
2.43.0


From 28bc1880a3fbc5e0a4937c88161045ebab4b0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 30/49] fix: the zoo index lists every stored pattern, whatever
 its name

---
 yuca/zoo/librarian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 1c147a8..1f4e7f9 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -30,10 +30,7 @@ class Librarian():
 
         remove_list = []
         for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
+            if not elem.endswith(".npy"):
                 remove_list.append(elem)
                 
         for elem in remove_list:
-- 
2.43.0


From 9b808acfb38cfcd9f33a1db3a312c2b4b05f48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 31/49] fix: pattern metadata is loaded as it was stored

---
 yuca/zoo/librarian.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 1f4e7f9..3c4f3fc 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -1,4 +1,5 @@
 import os
+import csv
 
 import numpy as np
 
@@ -68,11 +69,12 @@ class Librarian():
             elif self.verbose:
                 print(f"warning, no config supplied for {pattern_name}")
 
-        with open(meta_path, "w") as f:
-            f.write(f"ca_config,{config_name}")
-            f.write(f"\ncommit_hash,{commit_hash}")
-            f.write(f"\nnotes, {notes}")
-            f.write(f"\nentry_point,{entry_point}")
+        with open(meta_path, "w", newline="") as f:
+            writer = csv.writer(f, quoting=csv.QUOTE_ALL, lineterminator="\n")
+            writer.writerow(["ca_config", config_name])
+            writer.writerow(["commit_hash", commit_hash])
+            writer.writerow(["notes", str(notes)])
+            writer.writerow(["entry_point", entry_point])
 
         np.save(file_path, pattern) 
 
@@ -92,25 +94,15 @@ class Librarian():
 
         pattern = np.load(file_path)
 
-        with open(meta_path) as f:
-            metadata = f.readlines()
+        with open(meta_path, newline="") as f:
+            # unquoted values may hold commas of their own
+            metadata = {row[0]: ", ".join(row[1:]) \
+                    for row in csv.reader(f, skipinitialspace=True) if row}
 
-            ca_config = metadata[0].split(",")[1]
-
-            try:
-                entry_point = metadata[3].split(",")[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",")[1]
-            except:
-                notes = ""
-
-            try:
-                commit_hash = metadata[1].split(",")[1]
-            except:
-                commit_hash = "none"
+        ca_config = metadata["ca_config"]
+        entry_point = metadata.get("entry_point", "none")
+        notes = metadata.get("notes", "")
+        commit_hash = metadata.get("commit_hash", "none")
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From 1b3555d00958d381afdaa296bb032e23630868ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 32/49] fix: animations show the starting grid once

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..9db5f00 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -174,7 +174,7 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
-    first_frame.save(gif_path, format="GIF", append_images=frames, \
+    first_frame.save(gif_path, format="GIF", append_images=frames[1:], \
             save_all=True, duration=42, loop=0)
 
     rm_path = os.path.join(frames_path, "*png")
-- 
2.43.0


From 42a9e0d1b5e843155399b521e6770b122e161ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 33/49] fix: one frame makes an animation, no steps make none

---
 yuca/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 9db5f00..0e310d0 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -214,6 +214,8 @@ def save_fig_sequence(grid, ca, num_steps=10, \
         gif_path = os.path.join(gif_path, tag[0])
         tag = tag[1]
 
+    frames_saved = 0
+
     for step in range(num_steps):
         
         if grid.max() < 0.001:
@@ -245,12 +247,13 @@ def save_fig_sequence(grid, ca, num_steps=10, \
             img[:,:,:3] = 255 - img[:,:,:3]
 
         sio.imsave(save_path, img, check_contrast=False)
+        frames_saved += 1
 
         for speed_step in range(speedup):
             grid = ca.get_frame(grid, mode = mode)
 
 
-    if step > 0:
+    if frames_saved > 0:
         make_gif(frames_path=frames_path, gif_path=gif_path, tag=tag) 
     else: 
         print("vanishing grid, no gif made")
-- 
2.43.0


From cffdad64fbfd328dfe2c44c098b44682e10405a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 34/49] fix: a new animation does not replace an earlier one

---
 yuca/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 0e310d0..b553aa9 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -170,7 +170,11 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     if os.path.exists(gif_path):
         pass
     else:
-        os.mkdir(gif_path)
+        os.makedirs(gif_path)
+
+    # don't replace earlier animations
+    while os.path.exists(os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif")):
+        gif_id += 1
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
-- 
2.43.0


From d638c7f6a427f5016b0bb01196216e9c2e764d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 35/49] fix: rendering only touches its own frames, whatever
 their path

---
 yuca/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index b553aa9..96328c0 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 
 import time
 import numpy as np
@@ -181,9 +182,9 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     first_frame.save(gif_path, format="GIF", append_images=frames[1:], \
             save_all=True, duration=42, loop=0)
 
-    rm_path = os.path.join(frames_path, "*png")
-
-    os.system(f"rm {rm_path}")
+    for filename in dir_list:
+        if "png" in filename:
+            os.remove(os.path.join(frames_path, filename))
 
 def save_fig_sequence(grid, ca, num_steps=10, \
         frames_path="./assets/gif_frames", \
@@ -208,9 +209,9 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     # number of leading zeros
     leading = num_steps // 10 + 1
 
-    if not os.path.exists(frames_path):
-        my_cmd = f"mkdir -p {frames_path}"
-        os.system(my_cmd)
+    # frames left over by an interrupted rendering don't belong to this one
+    shutil.rmtree(frames_path, ignore_errors=True)
+    os.makedirs(frames_path)
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
@@ -262,5 +263,5 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     else: 
         print("vanishing grid, no gif made")
 
-    os.system(f"rm -r {frames_path}")
+    shutil.rmtree(frames_path)
     #ca.to_device(old_device)
-- 
2.43.0


From 6594fab4c12e74abf0be249fac0f9b6ef5e4a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 36/49] fix: analyze universes on grids of any size

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..64199e0 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -306,8 +306,8 @@ class Phanes():
                 grid[:,:,:,-b_dim//2:] *= 0
         else:
 
-            grid[:,:,b_dim//2:-b_dim//2, b_dim//2:-b_dim//2] = torch.rand(\
-                    self.batch_size, 1, b_dim, b_dim)
+            bounding_box = grid[:,:,b_dim//2:-b_dim//2, b_dim//2:-b_dim//2]
+            bounding_box.copy_(torch.rand(*bounding_box.shape))
 
         # escape mask checks for patterns that escape the bounding box
         escape_mask = torch.zeros_like(grid)
-- 
2.43.0


From e8b37119163eec7d887998822eb61cb3494e607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 37/49] fix: conditional entropy counts pairs of neighbouring
 states

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 64199e0..232f140 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -113,7 +113,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     
     for ii in range(p.shape[0]):
         for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+            p[ii,jj] = np.sum((uint8_grid == ii) & (uint8_grid_shifted == jj))
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +124,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            p_s_given_u[kk, ll] = p[kk,ll] / max([np.sum(p[:,ll]), 1])
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From 5ee6dd1504c843ecb3ae23cb56f2c55bafe40dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 38/49] fix: save analyses next to the input directory, with or
 without a trailing slash

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 232f140..b4e3efb 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -418,9 +418,9 @@ class Phanes():
 
                 print(progress_msg)
 
-                save_directory = os.path.split(os.path.split(my_directory)[0])[0]
+                save_directory = os.path.split(os.path.normpath(my_directory))[0]
                 save_directory = os.path.join(save_directory, "ca_analysis")
-
+                os.makedirs(save_directory, exist_ok=True)
                 
                 save_name = os.path.splitext(filename)[0] \
                         + f"cppn{self.use_cppn}_analysis.npy"
-- 
2.43.0


From 2948f8040d11e785b7d40243e7618d34cc111148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 39/49] fix: masks fit images of every size

---
 yuca/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 96328c0..df59fea 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -41,9 +41,11 @@ def get_bite_mask(img, bite_radius, coords=None):
     if coords is None:
         coords = np.random.rand(2) * radius
 
-    xx, yy = np.meshgrid(\
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)), \
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)))
+    # evenly spaced coordinates, as many as there are rows/columns
+    rows, cols = [-(dim // 2) + np.arange(dim) * ((2 * (dim // 2) + 1) / dim) \
+            for dim in img.shape[2:4]]
+
+    xx, yy = np.meshgrid(cols, rows)
 
     grid = np.sqrt((xx-coords[0])**2 + (yy-coords[1])**2) / radius
 
-- 
2.43.0


From 6bab21bb79aa8cb506372876f98b4ec8f76cf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 40/49] fix: a prepared batch has the channels of the image by
 default

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index df59fea..94c906f 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -69,7 +69,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0


From c2b493e552e2f435859b33e3e694f7fe33de0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 41/49] fix: clones are trained on the neighborhood kernel of
 their source

---
 yuca/clone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..06f6547 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -62,6 +62,7 @@ def clone_from_ca(**kwargs):
                     external_channels=external_channels,\
                     hidden_channels=hidden_channels)
             nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.initialize_neighborhood_layer()
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
-- 
2.43.0


From 40046f9e88cb0ec046e1e09fb52318db5191057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 42/49] fix: keep the weights that reached the lowest error

---
 yuca/clone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 06f6547..4d1c398 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -99,10 +100,6 @@ def clone_from_ca(**kwargs):
                     #(F.mse_loss(predicted, target) + F.mae_loss(predicted, target))
 
                     loss.backward()
-                    clipping_value = 1e-1 
-                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
-                    optimizer.step()
-
                     if smooth_loss is None:
                         smooth_loss = loss.detach()
                     else:
@@ -115,7 +112,7 @@ def clone_from_ca(**kwargs):
 
                         if relative_error < best_error:
                             best_error = relative_error
-                            best_state_dict = nca.state_dict()
+                            best_state_dict = copy.deepcopy(nca.state_dict())
 
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
@@ -125,6 +122,9 @@ def clone_from_ca(**kwargs):
                         if iteration_best_error < error_threshold:
                             break
 
+                    clipping_value = 1e-1 
+                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
+                    optimizer.step()
 
                     if step % display_every == 0:
                         new_params = nca.get_params()
-- 
2.43.0


From bc49b95b73f9fb90c6deb4f534d16543ac2d0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 43/49] fix: stop cloning once the error threshold is met

---
 yuca/clone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 4d1c398..1ea769e 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -140,7 +140,9 @@ def clone_from_ca(**kwargs):
 
             hidden_channels = min([max_hidden_channels, int(hidden_channels*1.25)])
             iteration += 1
-            
+
+            if best_error < error_threshold:
+                break
 
         msg = f"attempted to clone {ca_config} to nca\n"
         msg += f"best nca after {iteration} iterations of max {max_steps} steps \n"
-- 
2.43.0


From a146729a4c00c172e1491dbcce7c7af10da8291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 44/49] fix: every cloned configuration has its own network and
 file

---
 yuca/clone.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 1ea769e..0446a07 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -33,11 +33,7 @@ def clone_from_ca(**kwargs):
     learning_rate = query_kwargs("learning_rate", 1e-3, **kwargs)
     verbose = query_kwargs("verbose", False, **kwargs)
     save_name = query_kwargs("save_name", "default_nca.pt", **kwargs)
-    save_path = os.path.join(log_directory, save_name)
 
-
-    best_state_dict = None
-    
     ca_configs = query_kwargs("ca_config", "orbium", **kwargs)
     if type(ca_configs) == str:
         ca_configs = [ca_configs]
@@ -45,6 +41,7 @@ def clone_from_ca(**kwargs):
     seed_all(42)
     for ca_config in ca_configs:
         hidden_channels = query_kwargs("hidden_channels", 32, **kwargs)
+        best_state_dict = None
 
         ca = CCA()
         ca.restore_config(ca_config)
@@ -152,9 +149,9 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
-        if "ca_config" in save_path:
-            config_name = os.path.splitext(ca_config)[0] 
-            save_path = save_path.replace("ca_config", config_name)
+        config_name = os.path.splitext(os.path.basename(ca_config))[0]
+        save_path = os.path.join(log_directory, \
+                save_name.replace("ca_config", config_name))
 
         msg += f"saving to {save_path}"
         print(msg)
-- 
2.43.0


From f66f1c2729ecbfe24db34be517a648a033f93d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 45/49] fix: the meta automaton keeps a clock

---
 yuca/metaca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/metaca.py b/yuca/metaca.py
index 896310c..8e89a22 100644
--- a/yuca/metaca.py
+++ b/yuca/metaca.py
@@ -68,11 +68,14 @@ class MetaCA(CCA):
         self.dgrid = self.dgrid + self.ddt * update_update
         
         new_grid = torch.clamp(grid + self.dt * self.dgrid, 0, 1.0)
+
+        self.t_count = self.t_count + self.dt.detach().cpu()
         
         return new_grid
 
     def reset(self):
 
+        super(MetaCA, self).reset()
         self.dgrid = torch.tensor([0])
 
 if __name__ == "__main__":
-- 
2.43.0


From 8229807d2ea3bb2c3cd550fa27e39cd0b00ef81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 46/49] fix: a neural automaton can be built from a
 configuration without settings of its own

---
 yuca/ca/neural.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 6ea67dd..5ab2776 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -71,13 +71,10 @@ class NCA(CA):
             print(f"Defaulting to Gaussian activation function")
             self.act = Gaussian
 
-        if "ca_config" in kwargs.keys():
-            if kwargs["ca_config"] is not None:
-                self.restore_config(kwargs["ca_config"])
-            else:
-                self.default_init()
-        else:
-            self.default_init()
+        self.default_init()
+
+        if query_kwargs("ca_config", None, **kwargs) is not None:
+            self.restore_config(kwargs["ca_config"])
 
         self.reset()
 
-- 
2.43.0


From c542379a6f04a50c6370a478200514b9e58f60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 47/49] fix: the halting predictor is trained on the question
 it is judged by

---
 yuca/wrappers/halting_wrapper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..8a0347d 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -257,12 +257,14 @@ class HaltingWrapper(nn.Module):
             if (self.prediction_mode == 0):
                 # predict vanishing
                 target = 1.0 * \
-                        (grid.mean(dim=(2,3)).mean(dim=-1, keepdim=True) > 0.0001)
+                        (grid.max(dim = -1)[0].max(dim = -1)[0].max(\
+                        dim = -1, keepdim = True)[0] > 0.00001)
 
             elif (self.prediction_mode == 1):
                 # predict end-run dynamisim
                 target = 1.0 * \
-                        (dgrid.mean(dim=(2,3)).mean(dim=-1, keepdim=True) > 0.0001)
+                        (dgrid.max(dim = -1)[0].max(dim = -1)[0].max(\
+                        dim = -1, keepdim = True)[0] > 0.00001)
 
             else:
                 # predict vanishing and end-run dynamism
@@ -270,7 +272,8 @@ class HaltingWrapper(nn.Module):
                         (grid.max(dim = -1)[0].max(dim = -1)[0].max(\
                         dim = -1, keepdim = True)[0] > 0.00001)
                 target_1 = 1.0 * \
-                        (dgrid.mean(dim=(2,3)).mean(dim=-1, keepdim=True) > 0.0001)
+                        (dgrid.max(dim = -1)[0].max(dim = -1)[0].max(\
+                        dim = -1, keepdim = True)[0] > 0.00001)
                 target = torch.cat([target_0, target_1], dim=-1)
 
             loss = self.loss_fn(pred, target)
-- 
2.43.0


From 3cc793a41f8ffe2eb2d0c02cb96581956298d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 48/49] fix: co-evolution can start from the log of a run that
 kept fewer elites

---
 yuca/cmaes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 1b382a3..41fff45 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -704,7 +704,9 @@ class CMACES(CMAES):
     def save_gif(self, tag="", grid=None):
 
         for elite_idx in range(self.elite_keep):
-            if self.elite_params is not None:
+            # elites from a log may be fewer than are kept here
+            if self.elite_params is not None \
+                    and elite_idx < self.elite_params.shape[0]:
                 self.population[elite_idx].set_params(self.elite_params[elite_idx])
 
             rule_action, pattern_action = self.population[elite_idx].get_action()
-- 
2.43.0


From 854b7a82c2cc7ce59afbb255572844774557d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 49/49] fix: the pictures a rule search ends with show its
 elites

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 41fff45..bd58fa9 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -585,7 +585,7 @@ class CMAES():
 
             if "pattern" not in self.exp_id:
                 for elite_idx in range(self.elite_keep):
-                    self.env.ca.set_params(self.population[elite_idx].get_params())
+                    self.env.ca.set_params(self.elite_params[elite_idx])
                     tag = f"{self.exp_id}_seed{my_seed}_"\
                             f"immode{self.prediction_mode}" 
                     tag = [tag, f"gen{generation}"]
-- 
2.43.0

