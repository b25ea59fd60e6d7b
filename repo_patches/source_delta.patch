From bdf7aebd4cb347a02c740f0e1753bbc1eee4d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 01/19] fix: scale float tensors by powers of two without the
 removed float shift operators

---
 kernel/linear.py | 68 ++++++++++++++++++++++++------------------------
 kernel/utils.py  | 16 ++++++++++++
 2 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/kernel/linear.py b/kernel/linear.py
index 1f3c9c6..2fae580 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -2,7 +2,7 @@ import torch
 import math
 import copy
 from UnarySim.stream import RNG, BinGen, BSGen
-from UnarySim.kernel import FSUAdd, rshift_offset
+from UnarySim.kernel import FSUAdd, rshift_offset, lshift, rshift
 from torch.cuda.amp import autocast
 
 class FSULinear(torch.nn.Module):
@@ -444,7 +444,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale input to range 0~2^widthi-1
         buf_i = torch.empty(0, dtype=torch.long, device=input.device)
-        torch.abs((input >> rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
+        torch.abs(rshift(input, rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
         torch.clamp(buf_i, 0, cycle-1, out=buf_i)
         
         # actual input: its sign
@@ -457,7 +457,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale weight with batch to range 0~2^widthw-1
         buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
-        torch.abs((weight >> rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
+        torch.abs(rshift(weight, rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
         torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)
         buf_w = torch.empty(0, dtype=torch.long, device=weight.device)
         torch.cat(batch*[buf_w_no_batch], 0, out=buf_w)
@@ -473,7 +473,7 @@ class HUBLinearFunction(torch.autograd.Function):
         output = torch.empty(0, device=weight.device)
         torch.matmul(act_input, act_wght.transpose(1, 2), out=output)
         
-        output = (output >> rshift_o).squeeze_(1)
+        output = rshift(output, rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -584,7 +584,7 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_i = 1 - max_abs_i
         top_i = max_abs_i - 1
         i_round = torch.empty(0, device=input.device)
-        torch.round(input >> rshift_i, out=i_round)
+        torch.round(rshift(input, rshift_i), out=i_round)
         torch.clamp(i_round.unsqueeze_(1), bot_i, top_i, out=i_round)
         
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
@@ -594,12 +594,12 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_w = 1 - max_abs_w
         top_w = max_abs_w - 1
         w_round = torch.empty(0, device=input.device)
-        torch.round(weight >> rshift_w, out=w_round)
+        torch.round(rshift(weight, rshift_w), out=w_round)
         torch.clamp(w_round.unsqueeze_(0), bot_w, top_w, out=w_round)
         
         output = torch.empty(0, device=weight.device)
         torch.matmul(i_round, w_round.transpose(1, 2), out=output)
-        output = (output >> rshift_o).squeeze_(1)
+        output = rshift(output, rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -781,29 +781,29 @@ class TLUTLinearFXPFXPFunction(torch.autograd.Function):
 
         rshift_i, rshift_w, _ = rshift_offset(input_fp32, weight_fp32, widthi, widthw, rounding, quantilei, quantilew)
         
-        torch.trunc((input_fp32 >> rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
-        torch.trunc((weight_fp32 >> rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
+        torch.trunc(rshift(input_fp32, rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
+        torch.trunc(rshift(weight_fp32, rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
 
         if temporal in ["i", "input"]:
             frac = torch.zeros_like(input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = rshift(input_fp32, widtht)
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + widthi + rshift_i)).type(weight.type())
-            weight_new = (weight_fp32 << rshift_w).type(weight.type())
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(input_new, widtht), out=input_new)
+            input_new = lshift(input_new, delta + widthi + rshift_i).type(weight.type())
+            weight_new = lshift(weight_fp32, rshift_w).type(weight.type())
         elif temporal in ["w", "weight"]:
             frac = torch.zeros_like(weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = rshift(weight_fp32, widtht)
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
-            input_new = (input_fp32 << rshift_i).type(input.type())
-            weight_new = (weight_new << (delta + widthw + rshift_w)).type(input.type())
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(weight_new, widtht), out=weight_new)
+            input_new = lshift(input_fp32, rshift_i).type(input.type())
+            weight_new = lshift(weight_new, delta + widthw + rshift_w).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -853,27 +853,27 @@ class TLUTLinearFXPFPFunction(torch.autograd.Function):
         if temporal in ["i", "input"]:
             input_new = torch.zeros_like(input_fp32)
             frac = torch.zeros_like(input_fp32)
-            torch.trunc((input_fp32 >> rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
+            torch.trunc(rshift(input_fp32, rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = rshift(input_fp32, widtht)
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + width + rshift_i)).type(weight.type())
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(input_new, widtht), out=input_new)
+            input_new = lshift(input_new, delta + width + rshift_i).type(weight.type())
             weight_new = weight
         elif temporal in ["w", "weight"]:
             weight_new = torch.zeros_like(weight_fp32)
             frac = torch.zeros_like(weight_fp32)
-            torch.trunc((weight_fp32 >> rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
+            torch.trunc(rshift(weight_fp32, rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = rshift(weight_fp32, widtht)
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
+                torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(rshift(frac, widtht), rshift(weight_new, widtht), out=weight_new)
             input_new = input
-            weight_new = (weight_new << (delta + width + rshift_w)).type(input.type())
+            weight_new = lshift(weight_new, delta + width + rshift_w).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -929,15 +929,15 @@ class TLUTLinearFPFPFunction(torch.autograd.Function):
             frac = torch.zeros_like(weight_fp32)
             mantissa_new = torch.zeros_like(weight_fp32)
 
-        mantissa = mantissa << width
+        mantissa = lshift(mantissa, width)
         for i in range(degree):
-            mantissa = mantissa >> widtht
+            mantissa = rshift(mantissa, widtht)
             torch.frac(mantissa, out=frac)
             torch.trunc(mantissa, out=mantissa)
-            torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-            torch.add(frac >> widtht, mantissa_new >> widtht, out=mantissa_new)
+            torch.clamp(lshift(frac, widtht), cycle_neg+1, cycle_pos-1, out=frac)
+            torch.add(rshift(frac, widtht), rshift(mantissa_new, widtht), out=mantissa_new)
 
-        mantissa_new = mantissa_new << delta
+        mantissa_new = lshift(mantissa_new, delta)
 
         if temporal in ["i", "input"]:
             input_new = torch.ldexp(mantissa_new, exponent).type(dtype)
diff --git a/kernel/utils.py b/kernel/utils.py
index 128534b..c654986 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -168,6 +168,22 @@ def progerror_report(progerror, name="progerror", report_value=False, report_rel
                 ", rmse," + "{:12f}".format(rmse))
 
 
+def lshift(input, offset):
+    """
+    This function scales a floating-point tensor by 2**offset.
+    The operator << does so only in older PyTorch versions, and is for integer tensors only in newer ones.
+    """
+    return input * 2.0**offset
+
+
+def rshift(input, offset):
+    """
+    This function scales a floating-point tensor by 2**(-offset).
+    The operator >> does so only in older PyTorch versions, and is for integer tensors only in newer ones.
+    """
+    return input * 2.0**(-offset)
+
+
 class RoundSTE(torch.autograd.Function):
     """
     RoundSTE is a rounding operation which bypasses the input gradient to output directly.
-- 
2.43.0


From e524354565d48b9c549f43a43e6d7e2697e72f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 02/19] fix: FSUReLU uses stype for bitstreams and btype for
 its counter

---
 kernel/relu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/relu.py b/kernel/relu.py
index 156cd91..7cbcca2 100644
--- a/kernel/relu.py
+++ b/kernel/relu.py
@@ -23,8 +23,8 @@ class FSUReLU(torch.nn.Module):
         self.swcfg["stype"] = swcfg["stype"]
 
         self.depth = hwcfg["depth"]
-        self.stype = swcfg["btype"]
-        self.btype = swcfg["stype"]
+        self.stype = swcfg["stype"]
+        self.btype = swcfg["btype"]
 
         self.buf_max = 2**self.depth - 1
         self.buf_half = 2**(self.depth - 1)
-- 
2.43.0


From 40769075aa9b003be5a3f35f3a7f0e69f7ba7638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 03/19] fix: Correlation monitors bitstreams of any shape

---
 metric/metric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metric/metric.py b/metric/metric.py
index 175ad52..cdc7aa4 100644
--- a/metric/metric.py
+++ b/metric/metric.py
@@ -23,10 +23,10 @@ class Correlation(torch.nn.Module):
         in_1_is_1 = 1 - in_1_is_0
         in_2_is_0 = torch.eq(in_2, 0).type(torch.float)
         in_2_is_1 = 1 - in_2_is_0
-        self.paired_00_d.data.add_(in_1_is_0 * in_2_is_0)
-        self.paired_01_c.data.add_(in_1_is_0 * in_2_is_1)
-        self.paired_10_b.data.add_(in_1_is_1 * in_2_is_0)
-        self.paired_11_a.data.add_(in_1_is_1 * in_2_is_1)
+        self.paired_00_d.data = self.paired_00_d.data.add(in_1_is_0 * in_2_is_0)
+        self.paired_01_c.data = self.paired_01_c.data.add(in_1_is_0 * in_2_is_1)
+        self.paired_10_b.data = self.paired_10_b.data.add(in_1_is_1 * in_2_is_0)
+        self.paired_11_a.data = self.paired_11_a.data.add(in_1_is_1 * in_2_is_1)
         self.len.data.add_(1)
     
     def forward(self):
-- 
2.43.0


From 4ccb8009ccb2dc991b0e2730ce7beadc888a28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 04/19] fix: convtransp2d_get_padding splits the total padding
 only once

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index c654986..9eca86b 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -99,8 +99,8 @@ def convtransp2d_get_padding(h_w_in, h_w_out, kernel_size=1, stride=1, dilation=
     h_w_in, h_w_out, kernel_size, stride, dilation, out_pad = num2tuple(h_w_in), num2tuple(h_w_out), \
         num2tuple(kernel_size), num2tuple(stride), num2tuple(dilation), num2tuple(out_pad)
         
-    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0]) / 2
-    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1]) / 2
+    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0])
+    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1])
     
     return (math.floor(p_h/2), math.ceil(p_h/2)), (math.floor(p_w/2), math.ceil(p_w/2))
 
-- 
2.43.0


From 4458bfcf69f47e0c973c00b711a98c6ef6d9f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 05/19] fix: progerror_report reports the source value of the
 monitored ProgError

---
 kernel/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 9eca86b..907393b 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -129,9 +129,9 @@ def tensor_unary_outlier(tensor, name="tensor"):
 
 def progerror_report(progerror, name="progerror", report_value=False, report_relative=False):
     if report_value:
-        min = progerror.in_value.min().item()
-        max = progerror.in_value.max().item()
-        std, mean = torch.std_mean(progerror()[0])
+        min = progerror.source.min().item()
+        max = progerror.source.max().item()
+        std, mean = torch.std_mean(progerror.source)
         print("{:30s}".format(name) + \
                 ", Binary   Value range," + "{:12f}".format(min) + ", {:12f}".format(max) + \
                 ", std," + "{:12f}".format(std) + \
-- 
2.43.0


From 6324aabafccc03832427ee03214f1d30a13f706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 06/19] fix: NN_SC_Weight_Clipper accepts modules without bias

---
 kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 907393b..0bf1e6c 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -27,7 +27,7 @@ class NN_SC_Weight_Clipper(object):
             w = module.weight.data
             self.clipping(w)
         
-        if hasattr(module, 'bias'):
+        if getattr(module, 'bias', None) is not None:
             w = module.bias.data
             self.clipping(w)
         
-- 
2.43.0


From 5cc3252e7bca344035091a690c570bd681bf31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 07/19] fix: FSUConv2d pads height and width separately for
 tuple padding

---
 kernel/conv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 75086b6..6158c13 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -212,8 +212,10 @@ class FSUConv2dPC(torch.nn.Conv2d):
             
         # indicator of even/odd cycle
         self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
-        self.padding_0 = torch.nn.ConstantPad2d(self.padding, 0)
-        self.padding_1 = torch.nn.ConstantPad2d(self.padding, 1)
+        # the padding is (height, width), while ConstantPad2d takes (left, right, top, bottom)
+        pad_h, pad_w = num2tuple(self.padding)
+        self.padding_0 = torch.nn.ConstantPad2d((pad_w, pad_w, pad_h, pad_h), 0)
+        self.padding_1 = torch.nn.ConstantPad2d((pad_w, pad_w, pad_h, pad_h), 1)
         self.bipolar_mode = torch.nn.Parameter(torch.tensor([self.mode == "bipolar"], dtype=torch.bool), requires_grad=False)
 
     def FSUConv2d_PC_wrc(self, input):
-- 
2.43.0


From 76bf24b10b9965ee491add4ef32569d01efdba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 08/19] fix: HUBLinear and HUBConv2d run all cycles when cycle
 is None

---
 kernel/conv.py   | 8 ++++++--
 kernel/linear.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 6158c13..cf3b339 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -398,7 +398,7 @@ class HUBConv2d(torch.nn.Conv2d):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
@@ -421,7 +421,11 @@ class HUBConv2d(torch.nn.Conv2d):
         # maximum possible run cycle
         self.cycle_max = 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"])
         # actual run cycle
-        self.cycle_act = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        if self.hwcfg["cycle"] is None:
+            self.cycle_act = self.cycle_max
+        else:
+            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
+        self.hwcfg["cycle"] = self.cycle_act
 
         assert groups == 1, \
             "Error: the 'groups' in " + str(self) + " class requires to be 1."
diff --git a/kernel/linear.py b/kernel/linear.py
index 2fae580..852fad7 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -313,7 +313,7 @@ class HUBLinear(torch.nn.Linear):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
-- 
2.43.0


From 5e7b18c626a61255487bbd5f8f1b7e6b978bcbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 09/19] fix: quantization of all-zero input or weight gives
 zero rather than nan

---
 kernel/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kernel/utils.py b/kernel/utils.py
index 0bf1e6c..94c83ce 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -251,6 +251,10 @@ def rshift_offset(input, weight, widthi, widthw, rounding="round", quantilei=1,
             imax_int = imax_int.ceil()
             wmax_int = wmax_int.ceil()
 
+        # all-zero data have no magnitude to align to, i.e., log2(0) is -inf
+        imax_int = torch.where(scale_i > 0, imax_int, torch.zeros_like(imax_int))
+        wmax_int = torch.where(scale_w > 0, wmax_int, torch.zeros_like(wmax_int))
+
         rshift_i = imax_int - widthi
         rshift_w = wmax_int - widthw
         rshift_o = max(widthi, widthw) - imax_int - wmax_int
-- 
2.43.0


From 43d2c7da331fa53b7e955f408e2bac859b716752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 10/19] fix: NN_SC_Weight_Clipper does not turn constant data
 into nan

---
 kernel/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 94c83ce..7f043ef 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -34,21 +34,23 @@ class NN_SC_Weight_Clipper(object):
         self.frequency = self.frequency + 1
             
     def clipping(self, w):
+        # data of one single value have no range to normalize
+        method = "clip" if (self.method == "norm") and torch.equal(torch.min(w), torch.max(w)) else self.method
         if self.mode == "unipolar":
-            if self.method == "norm":
+            if method == "norm":
                 w.sub_(torch.min(w)).div_(torch.max(w) - torch.min(w)) \
                 .mul_(self.scale).round_().clamp_(0.0,self.scale).div_(self.scale)
-            elif self.method == "clip":
+            elif method == "clip":
                 w.clamp_(0.0,1.0) \
                 .mul_(self.scale).round_().clamp_(0.0,self.scale).div_(self.scale)
             else:
                 raise TypeError("unknown method type '{}' in SC_Weight, should be 'clip' or 'norm'"
                                 .format(self.method))
         elif self.mode == "bipolar":
-            if self.method == "norm":
+            if method == "norm":
                 w.sub_(torch.min(w)).div_(torch.max(w) - torch.min(w)).mul_(2).sub_(1) \
                 .mul_(self.scale/2).round_().clamp_(-self.scale/2,self.scale/2).div_(self.scale/2)
-            elif self.method == "clip":
+            elif method == "clip":
                 w.clamp_(-1.0,1.0) \
                 .mul_(self.scale/2).round_().clamp_(-self.scale/2,self.scale/2).div_(self.scale/2)
             else:
-- 
2.43.0


From b21503cc283a9f77f3eb62d6b309ad3f4290fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 11/19] fix: lfsr RNG never starts from the invalid all-zero
 state

---
 stream/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream/gen.py b/stream/gen.py
index 0489066..3ce748a 100644
--- a/stream/gen.py
+++ b/stream/gen.py
@@ -6,7 +6,9 @@ from math import log2, ceil, floor
 def get_lfsr_seq(width=8):
     polylist = LFSR().get_fpolyList(m=width)
     poly = polylist[np.random.randint(0, len(polylist), 1)[0]]
-    L = LFSR(fpoly=poly,initstate ='random')
+    # the all-zero state is invalid for an LFSR
+    initstate = [int(bit) for bit in format(np.random.randint(1, 2**width), 'b').zfill(width)]
+    L = LFSR(fpoly=poly, initstate=initstate)
     lfsr_seq = []
     for i in range(2**width):
         value = 0
-- 
2.43.0


From b950958ec1cebe2e8bf56ff574c2e98d38cd899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 12/19] fix: RawScale gives zero rather than nan when the data
 within the quantile are zero

---
 stream/gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream/gen.py b/stream/gen.py
index 3ce748a..e51fea1 100644
--- a/stream/gen.py
+++ b/stream/gen.py
@@ -102,6 +102,8 @@ class RawScale(torch.nn.Module):
         lower_bound = torch.quantile(raw, self.quantile_lower)
         upper_bound = torch.quantile(raw, self.quantile_upper)
         scale = torch.max(lower_bound.abs(), upper_bound.abs())
+        # all-zero data within the quantile stay at zero, rather than become nan
+        scale = torch.where(scale > 0, scale, torch.ones_like(scale))
         output = raw.clamp(lower_bound, upper_bound).div(scale)
         return output
 
-- 
2.43.0


From 5db69c3698a947df81bb4bf2166f9b562d1caaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 13/19] fix: JKFF does not return its state parameter, which
 later cycles rewrite

---
 kernel/jkff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/jkff.py b/kernel/jkff.py
index b0f3935..56a5213 100644
--- a/kernel/jkff.py
+++ b/kernel/jkff.py
@@ -28,6 +28,7 @@ class JKFF(torch.nn.Module):
         j1k1 = j1 & k1
         
         self.jkff.data = j0k0 * self.jkff + j1k0 * torch.ones_like(J, dtype=torch.int8) + j0k1 * torch.zeros_like(J, dtype=torch.int8) + j1k1 * (1 - self.jkff)
-        return self.jkff.type(self.stype)
+        # not the parameter itself, which the next cycle rewrites
+        return self.jkff.data.type(self.stype)
 
     
\ No newline at end of file
-- 
2.43.0


From ca6e4983d7debb701cf8330f9ac4202d0cff0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 14/19] fix: ProgError does not return its state parameters,
 which later calls rewrite

---
 metric/metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metric/metric.py b/metric/metric.py
index cdc7aa4..deabd8f 100644
--- a/metric/metric.py
+++ b/metric/metric.py
@@ -93,7 +93,8 @@ class ProgError(torch.nn.Module):
         if self.mode == "bipolar":
             self.pp.data = self.pp.mul(2).sub(1)
         self.pe.data = self.pp.sub(self.source)
-        return self.pp, self.pe
+        # not the parameters themselves, which the next call rewrites
+        return self.pp.data, self.pe.data
     
     
 class Stability(torch.nn.Module):
@@ -131,7 +132,7 @@ class Stability(torch.nn.Module):
     def Monitor(self, in_1):
         self.progerr.Monitor(in_1)
         self.cycle = self.progerr.cycle
-        _, self.pe = self.progerr()
+        _, self.pe.data = self.progerr()
         self.cycle_to_stable.add_(torch.gt(self.pe.abs(), self.threshold).type(torch.float).mul_(self.cycle - self.cycle_to_stable))
         
     def forward(self):
-- 
2.43.0


From 17d71c1de71fa2814694ee60e0a70a86eb64548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 15/19] fix: SkewedSyncInt keeps what is left after its output

The counter took the sum before the output was subtracted, and both clips were one bit short of the counter, so values were emitted more than once.
---
 hw/stream/shuffle_int/SkewedSyncInt.sv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hw/stream/shuffle_int/SkewedSyncInt.sv b/hw/stream/shuffle_int/SkewedSyncInt.sv
index d8fe6c6..94cfb73 100644
--- a/hw/stream/shuffle_int/SkewedSyncInt.sv
+++ b/hw/stream/shuffle_int/SkewedSyncInt.sv
@@ -28,11 +28,11 @@ module SkewedSyncInt # (
 
     assign sum = cnt + in0;
     assign sum_overflow = sum[DEP];
-    assign sum_clip = sum_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_clip = sum_overflow ? {DEP{1'b1}} : sum[DEP-1:0];
 
     assign sum_res = sum - out0;
     assign sum_res_overflow = sum_res[DEP];
-    assign sum_res_clip = sum_res_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_res_clip = sum_res_overflow ? {DEP{1'b1}} : sum_res[DEP-1:0];
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
         if(~rst_n) begin
-- 
2.43.0


From 404aae6ed53d86f2cc63d551139e41e1ddd66f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 16/19] fix: BISQRT_O_U and BISQRT_O_B parameter lists and
 shift register size

Commas were missing in the parameter lists, and the shift register of DEP_SR entries was indexed with the counter width DEP.
---
 hw/kernel/sqrt/BISQRT_O_B.sv | 10 +++++-----
 hw/kernel/sqrt/BISQRT_O_U.sv | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hw/kernel/sqrt/BISQRT_O_B.sv b/hw/kernel/sqrt/BISQRT_O_B.sv
index 66e9e80..c2070df 100644
--- a/hw/kernel/sqrt/BISQRT_O_B.sv
+++ b/hw/kernel/sqrt/BISQRT_O_B.sv
@@ -1,8 +1,8 @@
 `include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_O_B #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -27,12 +27,12 @@ module BISQRT_O_B #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
diff --git a/hw/kernel/sqrt/BISQRT_O_U.sv b/hw/kernel/sqrt/BISQRT_O_U.sv
index d50c467..84824af 100644
--- a/hw/kernel/sqrt/BISQRT_O_U.sv
+++ b/hw/kernel/sqrt/BISQRT_O_U.sv
@@ -1,6 +1,6 @@
 module BISQRT_O_U #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -24,12 +24,12 @@ module BISQRT_O_U #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
-- 
2.43.0


From 5491ded391aa157aa51cccf87282f376a4de0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 17/19] fix: uNSADD8 offset for eight inputs

Eight bipolar inputs need the offset 7; 15 belongs to sixteen inputs.
---
 hw/kernel/old/uNSADD/uNSADD8.sv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hw/kernel/old/uNSADD/uNSADD8.sv b/hw/kernel/old/uNSADD/uNSADD8.sv
index 9ba4cab..d7721af 100644
--- a/hw/kernel/old/uNSADD/uNSADD8.sv
+++ b/hw/kernel/old/uNSADD/uNSADD8.sv
@@ -1,6 +1,6 @@
 `include "parallelCnt7.sv"
 // `define OFFSET 0
-`define OFFSET 15
+`define OFFSET 7
 
 module uNSADD8 (
     input logic clk,    // Clock
-- 
2.43.0


From d0a0b52c9749baef062a6c349631656ecbe3f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 18/19] fix: convolutions take weights in any memory layout

---
 kernel/conv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index cf3b339..4e36374 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -199,16 +199,16 @@ class FSUConv2dPC(torch.nn.Conv2d):
             self.brng = RNG(hwcfg_brng, swcfg)()
 
         # define the kernel linear for input bit 1
-        self.wbsg_i1 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
-        self.wrdx_i1 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
+        self.wbsg_i1 = BSGen(self.weight.reshape(1, self.weight.size()[0], -1), self.wrng, swcfg)
+        self.wrdx_i1 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).reshape(1, self.weight.size()[0], -1)
         if self.has_bias is True:
             self.bbsg = BSGen(self.bias, self.brng, swcfg)
             self.brdx = torch.nn.Parameter(torch.zeros_like(self.bias, dtype=torch.long), requires_grad=False)
         
         # if bipolar, define a kernel for input bit 0, note that there is no bias required for this kernel
         if (self.mode == "bipolar") and (self.wtc is False):
-            self.wbsg_i0 = BSGen(self.weight.view(1, self.weight.size()[0], -1), self.wrng, swcfg)
-            self.wrdx_i0 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).view(1, self.weight.size()[0], -1)
+            self.wbsg_i0 = BSGen(self.weight.reshape(1, self.weight.size()[0], -1), self.wrng, swcfg)
+            self.wrdx_i0 = torch.nn.Parameter(torch.zeros_like(self.weight, dtype=torch.long), requires_grad=False).reshape(1, self.weight.size()[0], -1)
             
         # indicator of even/odd cycle
         self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
@@ -513,7 +513,7 @@ class HUBConv2d(torch.nn.Conv2d):
         input_transpose = input_im2col.transpose(1, 2)
         input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
 
-        weight = self.weight.view(self.weight.size()[0], -1)
+        weight = self.weight.reshape(self.weight.size()[0], -1)
         mm_out = HUBLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.cycle_act, self.mapctlee)
         mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
         mm_out_transpose = mm_out_reshape.transpose(1, 2)
@@ -603,7 +603,7 @@ class FXPConv2d(torch.nn.Conv2d):
         input_transpose = input_im2col.transpose(1, 2)
         input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
 
-        weight = self.weight.view(self.weight.size()[0], -1)
+        weight = self.weight.reshape(self.weight.size()[0], -1)
         mm_out = FXPLinearFunction.apply(input_reshape, weight, None, self.rshift_i, self.rshift_w, self.rshift_o, self.max_abs_i, self.max_abs_w)
         mm_out_reshape = mm_out.reshape(input.size()[0], -1, mm_out.size()[-1])
         mm_out_transpose = mm_out_reshape.transpose(1, 2)
@@ -762,7 +762,7 @@ class TLUTConv2d(torch.nn.Conv2d):
         input_transpose = input_im2col.transpose(1, 2)
         input_reshape = input_transpose.reshape(-1, input_transpose.size()[-1])
 
-        weight = self.weight.view(self.weight.size()[0], -1)
+        weight = self.weight.reshape(self.weight.size()[0], -1)
         # See the autograd section for explanation of what happens here.
         if self.mode == "fxpfxp":
             mm_out = TLUTLinearFXPFXPFunction.apply(input_reshape, weight, None, 
-- 
2.43.0


From 04a52d21899280db15415c4dc29223ecbf51832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:55 +0000
Subject: [PATCH 19/19] fix: fixed-point layers refuse unsupported quantiles
 and rounding modes

---
 kernel/conv.py   | 9 +++++++++
 kernel/linear.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/kernel/conv.py b/kernel/conv.py
index 4e36374..150ca6c 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -567,6 +567,15 @@ class FXPConv2d(torch.nn.Conv2d):
         self.hwcfg["widthw"] = hwcfg["widthw"]
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+
+        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
+            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
+        
+        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
+            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
+
+        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
+            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
         
         # weight and bias
         if weight_ext is not None:
diff --git a/kernel/linear.py b/kernel/linear.py
index 852fad7..966376b 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -533,6 +533,15 @@ class FXPLinear(torch.nn.Linear):
         self.hwcfg["widthw"] = hwcfg["widthw"]
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+
+        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
+            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
+        
+        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
+            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
+
+        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
+            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
         
         # weight and bias
         if weight_ext is not None:
-- 
2.43.0

