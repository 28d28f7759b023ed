From 5e9096b1e5ff25e027ea64e2b7db0cbeb9d97f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:52 +0000
Subject: [PATCH 001/121] fix: cap out-of-bounds slice bounds in expand_slice
 like numpy slicing does, so sliced maps keep the right wcs

---
 pixell/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..cc8716b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2837,13 +2837,11 @@ def expand_slice(sel, n, nowrap=False):
 	Note, doing this twice may result in odd results, so don't send the result of this
 	into functions that expect an unexpanded slice. Might be replacable with slice.indices()."""
 	step = sel.step or 1
-	def cycle(i,n):
-		if nowrap: return i
-		else: return min(i,n) if i >= 0 else n+i
+	# With wrapping, out-of-bounds values are capped the same way normal slicing does it
+	if not nowrap: return slice(*slice(sel.start, sel.stop, step).indices(n))
 	def default(a, val): return a if a is not None else val
-	if step == 0: raise ValueError("slice step cannot be zero")
-	if step > 0: return slice(cycle(default(sel.start,0),n),cycle(default(sel.stop,n),n),step)
-	else: return slice(cycle(default(sel.start,n-1), n), cycle(sel.stop,n) if sel.stop is not None else -1, step)
+	if step > 0: return slice(default(sel.start,0), default(sel.stop,n), step)
+	else: return slice(default(sel.start,n-1), default(sel.stop,-1), step)
 
 def split_slice(sel, ndims):
 	"""Splits a numpy-compatible slice "sel" into sub-slices sub[:], such that
-- 
2.43.0


From 58d0438f920f00b1c2f7411588ba4a7f555a0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:52 +0000
Subject: [PATCH 002/121] fix: slice_geometry returns zero instead of negative
 lengths for empty slices

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..02863f3 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -277,7 +277,7 @@ def slice_geometry(shape, wcs, sel, nowrap=False):
 		wcs.wcs.crpix[j] /= s.step
 		wcs.wcs.cdelt[j] *= s.step
 		wcs.wcs.crpix[j] += 0.5
-		oshape[i] = (s.stop-s.start+s.step-np.sign(s.step))//s.step
+		oshape[i] = max((s.stop-s.start+s.step-np.sign(s.step))//s.step, 0)
 	# Convert this is a bit cumbersome, but ensures we get a tuple of
 	# plain python ints instead of numpy.int64s
 	oshape = tuple([int(a) for a in oshape])
-- 
2.43.0


From 7ff0baa06b55d6234dbf078f3c9d4b2c104b5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 003/121] fix: sbox_fix no longer modifies the caller's box, so
 extract_pixbox and insert_at leave a strided pixbox alone

---
 pixell/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index cc8716b..a2bd1d6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1692,8 +1692,9 @@ def sbox_fix0(sbox):
 	return sbox
 
 def sbox_fix(sbox):
-	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	# Ensure that we have a step, setting it to 1 if missing. Copy, so
+	# that we don't modify the caller's sbox below
+	sbox = np.array(sbox_fix0(sbox))
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
-- 
2.43.0


From 4158b3cfdbe2960e76911270be0af8cae5f5c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 004/121] fix: sbox_wrap skips whole steps when a strided box
 starts before or ends after the array

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a2bd1d6..5f95052 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1748,7 +1748,7 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			boxes_1d = []
 			i = 0
 			while ibox[1] > 0:
-				npre = max((-ibox[0])//ibox[2],0)
+				npre = max(-(ibox[0]//ibox[2]),0)
 				# ibox slice assuming all of the logical ibox is available
 				isub = sbox_fix([ibox[0]+npre*ibox[2],min(ibox[1],w),ibox[2]])
 				nsub = sbox_size(isub)
@@ -1769,8 +1769,8 @@ def sbox_wrap(sbox, wrap=0, cap=0):
 			# upwards and downwards capping. Find the number of samples to
 			# crop on each side
 			if c:
-				npre  = max((-ibox[0])//ibox[2],0)
-				npost = max((ibox[1]-ibox[2]-(c-1))//ibox[2],0)
+				npre  = max(-(ibox[0]//ibox[2]),0)
+				npost = max(-(((c-1)-(ibox[1]-ibox[2]))//ibox[2]),0)
 			else: npre, npost = 0, 0
 			# Don't produce a slice if it would be empty
 			if npre + npost < ilen:
-- 
2.43.0


From d979449f8b3772b12beccbd76c34defb7618b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 005/121] fix: subinds and submap select the same pixels for a
 box given in reverse order

---
 pixell/enmap.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 02863f3..cce68b4 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -242,9 +242,11 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	# Translate the box to pixels
 	bpix = skybox2pixbox(shape, wcs, box, include_direction=True)
 	bpix[:2] += epsilon
-	if noflip:
-		for b in bpix.T:
-			if b[2] < 0: b[:] = [b[1],b[0],-b[2]]
+	# Do the rounding for boxes in pixel order, so that reversed boxes
+	# select the same pixels as normal ones
+	flip = bpix[2] < 0
+	for b in bpix.T:
+		if b[2] < 0: b[:] = [b[1],b[0],-b[2]]
 	if   mode == "round": bpix = np.round(bpix)
 	elif mode == "floor": bpix = np.floor(bpix)
 	elif mode == "ceil":  bpix = np.ceil(bpix)
@@ -254,6 +256,9 @@ def subinds(shape, wcs, box, mode=None, cap=True, noflip=False, epsilon=1e-4):
 	bpix = np.array(bpix, int)
 	# A pixel goes from [i1-0.5:i2+0.5] with round(+eps) this becomes [i1:i2+1]
 	# We therefore don't need to add 1 to get a proper slice
+	if not noflip:
+		for b, f in zip(bpix.T,flip):
+			if f: b[:] = [b[1]-1,b[0]-1,-b[2]]
 	if cap:
 		# Make sure we stay inside our map bounds
 		for b, n in zip(bpix.T,shape[-2:]):
-- 
2.43.0


From 91bc91f2140303d3bc054e2cfd3343ab0101646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 006/121] fix: enmap.pad(wrap=True) works when one side is not
 padded or is padded by more than the map size

---
 pixell/enmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index cce68b4..ffe5f40 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2263,10 +2263,10 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		# Each pixel in the padded map comes from the corresponding pixel modulo the map size
+		iy = (np.arange(res.shape[-2])-pix[0,0])%emap.shape[-2]
+		ix = (np.arange(res.shape[-1])-pix[0,1])%emap.shape[-1]
+		res[:] = np.asarray(emap)[...,iy[:,None],ix[None,:]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From fdf0d9bf0e5ec8286f9a182ee8a9149eff332f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 007/121] fix: Geometry.downgrade no longer fails, and
 downgrade_geometry keeps the leading dimensions like downgrade

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ffe5f40..87f4695 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -330,7 +330,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
@@ -2046,7 +2046,7 @@ def downgrade_geometry(shape, wcs, factor):
 	to scale_geometry, but truncates the same way as downgrade, and only
 	supports integer factors."""
 	factor = np.full(2, 1, dtype=int)*factor
-	oshape = tuple(shape[-2:]//factor)
+	oshape = tuple(shape[:-2])+tuple(shape[-2:]//factor)
 	owcs   = wcsutils.scale(wcs, 1.0/factor, rowmajor=True)
 	return oshape, owcs
 
-- 
2.43.0


From d0b6e8a316c9d27df4a910993955a02cc4145a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 008/121] fix: enmap.shift by a single number moves the
 reference pixel only along the axis that was shifted

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 87f4695..a31f004 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3088,7 +3088,7 @@ def shift(map, off, inplace=False, keepwcs=False):
 		if o != 0:
 			map[:] = np.roll(map, o, -len(off)+i)
 	if not keepwcs:
-		map.wcs.wcs.crpix += off[::-1]
+		map.wcs.wcs.crpix[:len(off)] += off[::-1]
 	return map
 
 def fractional_shift(map, off, keepwcs=False, nofft=False):
-- 
2.43.0


From 0a1fbd9ca1029029f225734b35fc359e15735d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:23 +0000
Subject: [PATCH 009/121] fix: block_expand and upgrade accept an offset
 together with inclusive=True (numpy bools are not valid split indices)

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 5f95052..ff0a96f 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2226,7 +2226,7 @@ def block_expand(a, bsize, osize, axis=-1, off=0, op="nearest", inclusive=True):
 	axis  %= a.ndim
 	if op == "nearest":
 		if inclusive:
-			pre, mid, tail = np.split(a, [off>0,(off>0)+nwhole], axis)
+			pre, mid, tail = np.split(a, [int(off>0),int(off>0)+nwhole], axis)
 			parts = []
 			if pre.size > 0: parts.append(np.repeat(pre, off,   axis))
 			if mid.size > 0: parts.append(np.repeat(mid, bsize, axis))
-- 
2.43.0


From 31636180603de507f457ec4d30c1812afb275171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 010/121] fix: enmap.overlap no longer modifies the caller's
 pixbox, and accepts it as a list

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a31f004..8b726c5 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -739,7 +739,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = np.array(shape2_or_pixbox) # copy, since it's modified below
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From e957fc26583496db3e77e0e059b36804c404564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 011/121] fix: enmap.insert passes its wrap, cval and iwcs
 arguments on

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 8b726c5..88f200e 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -709,7 +709,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From e6b5e5277a059ea38bf88d302a2b6f0dcf682a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 012/121] fix: a Geometry can be built from a Geometry or a
 map, as its error message says

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 88f200e..686b165 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -306,7 +306,7 @@ class Geometry:
 	def __init__(self, shape, wcs=None):
 		try: self.shape, self.wcs = tuple(shape.shape), shape.wcs
 		except AttributeError: self.shape, self.wcs = tuple(shape), wcs
-		assert wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
+		assert self.wcs is not None, "Geometry __init__ needs either a Geometry object or a shape, wcs pair"
 	@property
 	def npix(self): return self.shape[-2]*self.shape[-1]
 	# Make it behave a bit like a tuple, so we can use it interchangably with a shape, wcs pair
-- 
2.43.0


From e63e0577b58e28d55a59dc3ee1cd2b02e5a4b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 013/121] fix: neighborhood_pixboxes works for plain
 coordinates

---
 pixell/enmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 686b165..7935e32 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -771,9 +771,9 @@ def neighborhood_pixboxes(shape, wcs, poss, r):
 	return pixboxes[npos][{from,to},{y,x}] corresponding to the regions within a
 	distance of r from each entry in poss."""
 	if wcsutils.is_plain(wcs):
-		rpix = r/pixsize(shape, wcs)
-		centers = sky2pix(poss.T).T
-		return np.moveaxis([centers-rpix,center+rpix+1],0,1)
+		rpix = np.asarray(r)[...,None]/pixshape(shape, wcs)
+		centers = sky2pix(shape, wcs, np.asarray(poss).T).T
+		return utils.nint(np.stack([centers-rpix,centers+rpix+1],-2))
 	poss, r = utils.broadcast_arrays(poss, r, npost=(1,0))
 	res     = np.zeros(poss.shape[:-1]+(2,2))
 	for I in utils.nditer(poss.shape[:-1]):
-- 
2.43.0


From 010280227e06140f3790971a449ab9a5250d05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 014/121] fix: ndmap.at passes its cval argument on

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 7935e32..afe26e6 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -104,7 +104,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From a254af08903424ab1e92897802e64825cc1ce78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 015/121] fix: ndmap.fillbad returns its result

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index afe26e6..1cd8dbd 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From f71c231204a10664c57784dfd1dd29cc1418a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 016/121] fix: pixelization places the pixels as the variant
 says when a periodic axis drops its duplicate end point

---
 pixell/wcsutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..71484a1 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -92,11 +92,10 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 	# can calculate cdelt and crpix
 	owcs  = pwcs.deepcopy()
 	owcs.wcs.cdelt = [(ra2-ra1)/(nx-1), (dec2-dec1)/(ny-1)]
-	# The bottom-left corner has pixel coordinates -ox1,-oy1
-	# The top-right   corner has pixel coordinates (nx-1)-ox2,(ny-1)-oy2
-	# The center is the average of these
-	owcs.wcs.crpix[0] = 1+((nx-1)-ox2-ox1)/2
-	owcs.wcs.crpix[1] = 1+((ny-1)-oy2-oy1)/2
+	# The first pixel's center is at ra1,dec1, so this puts
+	# the center of the coordinate system where it should be
+	owcs.wcs.crpix[0] = 1-ra1 /owcs.wcs.cdelt[0]
+	owcs.wcs.crpix[1] = 1-dec1/owcs.wcs.cdelt[1]
 	if lonpole is not None:
 		owcs.wcs.lonpole = lonpole
 	return (ny,nx), owcs
-- 
2.43.0


From 00512a896d35fd461b8e051629661fc12a98f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 017/121] fix: a full-sky pixelization built from a shape has
 that shape

---
 pixell/wcsutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index 71484a1..e97a6a5 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -84,8 +84,8 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], res=res[0],  offs=offs[0], periodic=periodic[0])
 		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], res=res[1],  offs=offs[1], periodic=periodic[1])
 	elif res is None:
-		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-2], offs=offs[0], periodic=periodic[0])
-		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[0])
+		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-1], offs=offs[0], periodic=periodic[0], sign=-1)
+		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[1])
 	else:
 		raise ValueError("Either res or shape must be given to build a pixelization")
 	# Now that we have the intermediate coordinates of our endpoints, we
@@ -312,7 +312,8 @@ def pixelize_1d(w, n=None, res=None, offs=None, periodic=False, adjust=False, si
 	else:
 		if o1 is None: o1 =  0.5
 		if o2 is None: o2 = -0.5
-		res = w/(n-1+o1-o2)
+		# If the two ends are the same point, then one of them isn't included among our n
+		res = w/n if periodic and o1 == o2 else w/(n-1+o1-o2)
 	# Finish up
 	if o1 is not None:
 		ra1 = -w/2+o1*res
-- 
2.43.0


From df32c04a6bd0e729c9139a52651df8a67bdc043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 018/121] fix: fullsky_geometry2 and band_geometry2 forward to
 geometry2, which understands their arguments

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 1cd8dbd..ff94b80 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1587,7 +1587,7 @@ def fullsky_geometry2(res=None, shape=None, pre=None, deg=False, proj="car", var
 	geometry(). See its docstring for the meaning of the arguments.
 
 	dims is an alias for pre provided for backwards compatibility"""
-	return geometry(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="car", variant=None, dims=None):
 	"""Build a geometry covering a range of declinations. Equivalent to
@@ -1599,7 +1599,7 @@ def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="ca
 	decrange = (np.zeros(2)+decrange)*unit
 	if decrange.shape != (2,): raise ValueError("decrange must be a number or (dec1,dec2)")
 	pos      = np.array([[decrange[0],np.pi],[decrange[1],-np.pi]])/unit
-	return geometry(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(pos=pos, res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 # Idea: Make geometry a class with .shape and .wcs members.
 # Make a function that takes (foo,bar) and returns a geometry,
-- 
2.43.0


From ce42fb9f9763f4487776e0fb5b799eee7db6e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 019/121] fix: fix_wcs moves the reference point without moving
 the pixels on the sky

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index e97a6a5..d4bc084 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -618,7 +618,7 @@ def fix_wcs(wcs, axis=0, n=None):
 	dra   = mid-wcs.wcs.crval[axis]
 	dpix  = dra/wcs.wcs.cdelt[axis]
 	res = wcs.deepcopy()
-	res.wcs.crval[axis] += mid
+	res.wcs.crval[axis] += dra
 	res.wcs.crpix[axis] += dpix
 	# I don't think this is necessary any more, but apparently I had
 	# problems with wcs not being properly updated if I didn't do this
-- 
2.43.0


From 0ded07e63545e53b5ce79c4b89ea9c272b6aef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 020/121] fix: recenter_cyl_ra passes the wcs on

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index d4bc084..cf4c7a1 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -343,7 +343,7 @@ def recenter_cyl_x(wcs, x):
 	return owcs
 
 def recenter_cyl_ra(wcs, ra):
-	return recenter_cyl_x(wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
+	return recenter_cyl_x(wcs, wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
 
 def fix_wcs(wcs, axis=0):
 	"""Returns a new WCS object which has had the reference pixel moved to the
-- 
2.43.0


From b149d0108b1c0aa2fe708d24283bf718108ad3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 021/121] fix: fix_endian no longer swaps the bytes of shared
 data in place

---
 pixell/enmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ff94b80..f918f92 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3040,7 +3040,8 @@ def fix_endian(map):
 	"""Make endianness of array map match the current machine.
 	Returns the result."""
 	if map.dtype.byteorder not in ['=','<' if sys.byteorder == 'little' else '>']:
-		map = map.byteswap(True).view(map.dtype.newbyteorder())
+		# Not in place: the array may be a view of data that will be read again
+		map = map.byteswap().view(map.dtype.newbyteorder())
 	map.dtype = utils.fix_dtype_mpi4py(map.dtype)
 	return map
 
-- 
2.43.0


From 98c0103c759d265b347705105f4637d3815836f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 022/121] fix: stokes flips when reading no longer modify the
 cached file data

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index f918f92..56021c9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3016,7 +3016,7 @@ class ndmap_proxy_fits(ndmap_proxy):
 				if ind >= 0 and ind < self.shape[i]:
 					signs[(slice(None),)*i + (ind,)] *= -1
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-2,2])
-			res *= signs[sel1][...,None,None]
+			res = res * signs[sel1][...,None,None].astype(res.dtype)
 		return ndmap(fix_endian(res), wcs)
 	def __repr__(self): return "ndmap_proxy_fits(fname=%s, shape=%s, wcs=%s, dtype=%s)" % (str(self.fname), str(self.shape), str(self.wcs), str(self.dtype))
 
-- 
2.43.0


From 044d82e4ea0ecf7a71d578123da0cfc799c68cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 023/121] fix: read_map's mode argument was ignored

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 56021c9..3b15efc 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2945,7 +2945,7 @@ def read_helper(data, sel=None, box=None, pixbox=None, geometry=None, wrap="auto
 	"""Helper function for map reading. Handles the slicing, sky-wrapping and capping, etc."""
 	if delayed: return data # Slicing not supported yet when we want to return a proxy object
 	if geometry is not None: data = extract(data, *geometry, wrap=wrap)
-	if box      is not None: data = submap(data, box, wrap=wrap, recenter=recenter)
+	if box      is not None: data = submap(data, box, mode=mode, wrap=wrap, recenter=recenter)
 	if pixbox   is not None: data = extract_pixbox(data, pixbox, wrap=wrap, recenter=recenter)
 	if sel      is not None: data = data[sel]
 	data = data[:] # Get rid of the wrapper if it still remains
-- 
2.43.0


From b8a6f145c2b9c9c34304e45e512f554fc27c049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 024/121] fix: read_hdf_geometry failed on string header values

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 3b15efc..84ea236 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2916,7 +2916,7 @@ def read_hdf_geometry(fname, address=None):
 		hwcs = hfile["wcs"]
 		header = astropy.io.fits.Header()
 		for key in hwcs:
-			header[key] = hwcs[key][()]
+			header[key] = fix_python3(hwcs[key][()])
 		wcs   = wcsutils.WCS(header).sub(2)
 		shape = hfile["data"].shape
 	return shape, wcs
-- 
2.43.0


From 9fdb2279d38ef72be1db24bdbe0cc8c8a4f0f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:44 +0000
Subject: [PATCH 025/121] fix: read_map_geometry applied a slice in the file
 name to the wrong axes

---
 pixell/enmap.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 84ea236..2451228 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2715,8 +2715,10 @@ def read_map_geometry(fname, fmt=None, hdu=None, address=None):
 	else:
 		raise ValueError
 	if len(toks) > 1:
-		sel = eval("utils.sliceeval"+":".join(toks[1:]))[-2:]
-		shape, wcs = slice_geometry(shape, wcs, sel)
+		sel = eval("utils.sliceeval"+":".join(toks[1:]))
+		presel, pixsel = utils.split_slice(sel, [len(shape)-2,2])
+		pre = np.zeros(shape[:-2], bool)[presel].shape
+		shape, wcs = slice_geometry(pre+tuple(shape[-2:]), wcs, pixsel)
 	return shape, wcs
 
 def read_map_dtype(fname, fmt=None, hdu=None, address=None):
-- 
2.43.0


From eea67cd1f2f0b35f0fa836896cfd8f99a4290d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 026/121] fix: irfft to a length of 1 or 2 failed with the ducc
 engine

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..d6212ab 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -53,7 +53,7 @@ class ducc_FFTW:
 				# Real to complex
 				ducc0.fft.r2c(self.a, axes=self.axes, out=self.b, nthreads=self.threads)
 		elif self.direction == "FFTW_BACKWARD":
-			if self.a.shape == self.b.shape:
+			if self.a.shape == self.b.shape and np.iscomplexobj(self.b):
 				# Complex to complex
 				ducc0.fft.c2c(a=self.a, axes=self.axes, out=self.b, forward=False, inorm=2 if normalise_idft else 0, nthreads=self.threads)
 			else:
-- 
2.43.0


From 99c9a6145ac3e19bd9cb896ab05006aac1d9d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 027/121] fix: chebt and ichebt scaled the wrong axis of
 multidimensional arrays

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index d6212ab..e266f4c 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -309,13 +309,13 @@ def redft00(a, b=None, nthread=0, normalize=False, flags=None, engine="auto"):
 def chebt(a, b=None, nthread=0, flags=None, engine="auto"):
 	"""The chebyshev transform of a, along its last dimension."""
 	b = redft00(a, b, nthread, normalize=True, flags=flags, engine=engine)
-	b[1:-1] *= 2
+	b[...,1:-1] *= 2
 	return b
 
 def ichebt(a, b=None, nthread=0, engine="auto"):
 	"""The inverse chebyshev transform of a, along its last dimension."""
 	a = asfcarray(a).copy()
-	a[1:-1] *= 0.5
+	a[...,1:-1] *= 0.5
 	return redft00(a, b, nthread, engine=engine)
 
 def fft_len(n, direction="below", factors=None):
-- 
2.43.0


From 661de6aec7c7fcaa55eb063fa8395a64ecedeaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 028/121] fix: fft.resample_fft moved the highest mode of odd
 lengths to the wrong frequency

---
 pixell/fft.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index e266f4c..45712ed 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -416,13 +416,17 @@ def resample_fft(fa, n, out=None, axes=-1, norm=1, op=lambda a,b:b):
 		dest[:] = op(dest, source)
 	# Loop over start and end blocks for all dimensions
 	for bi, I in enumerate(utils.nditer([2]*len(axes))):
-		sel = [slice(None) for n in oshape]
+		isel = [slice(None) for n in oshape]
+		osel = [slice(None) for n in oshape]
 		for ai, ax in enumerate(axes):
 			c = min(fa.shape[ax], oshape[ax])
-			if I[ai] == 0: sel[ax] = slice(0,c//2)
-			else:          sel[ax] = slice(-(c-c//2),None)
-		sel = tuple(sel)
-		transfer(out[sel], fa[sel], norm, op)
+			# non-negative frequencies at the start, negative ones at the end.
+			# When c is even, the c/2 mode is treated as a negative one.
+			if I[ai] == 0: isel[ax] = osel[ax] = slice(0,c-c//2)
+			else:
+				isel[ax] = slice(fa.shape[ax]-c//2,None)
+				osel[ax] = slice(oshape[ax]-c//2,None)
+		transfer(out[tuple(osel)], fa[tuple(isel)], norm, op)
 	return out
 
 def interpol_nufft(a, inds, out=None, axes=None, normalize=True,
-- 
2.43.0


From 76847ad2033f99f63cf03697cb057b154bf9b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 029/121] fix: enmap.resample_fft moved the highest mode of odd
 lengths to the wrong frequency

---
 pixell/enmap.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 2451228..aa34eb2 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3163,20 +3163,23 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		elif norm == "plain":  norm = fomap.npix/fimap.npix # Corresponds to normalize=False in enmap.ifft
 		elif norm == "pix":    norm = (fomap.npix/fimap.npix)**0.5 # Corresponds to normalize=True, enmap.fft default
 		elif norm == "phys":   norm = 1 # Corresponds to normalize="phys"
-		else: raise ValueError("Unrecognized fourier unit '%s'" % str(unit))
+		else: raise ValueError("Unrecognized fourier unit '%s'" % str(norm))
 	# copy over all 4 quadrants. This would have been a single operation if the
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
 	cny, cnx = np.minimum(fimap.shape[-2:], oshape[-2:])
-	hny, hnx = cny//2, cnx//2
+	# non-negative frequencies are at the start, negative ones at the end
+	hny, hnx = cny-cny//2, cnx-cnx//2
+	iny, inx = fimap.shape[-2]-cny//2, fimap.shape[-1]-cnx//2
+	ony, onx = oshape[-2]-cny//2, oshape[-1]-cnx//2
 	# This function is used to avoid paying the cost of multiplying by norm when it's one
 	def transfer(dest, source, norm, op):
 		if norm != 1: source = source*norm
 		dest[:] = op(dest, source)
 	transfer(fomap[...,:hny,       :hnx       ],fimap[...,:hny,       :hnx       ], norm, op)
-	transfer(fomap[...,:hny,       -(cnx-hnx):],fimap[...,:hny,       -(cnx-hnx):], norm, op)
-	transfer(fomap[...,-(cny-hny):,:hnx       ],fimap[...,-(cny-hny):,:hnx       ], norm, op)
-	transfer(fomap[...,-(cny-hny):,-(cnx-hnx):],fimap[...,-(cny-hny):,-(cnx-hnx):], norm, op)
+	transfer(fomap[...,:hny,       onx:       ],fimap[...,:hny,       inx:       ], norm, op)
+	transfer(fomap[...,ony:,       :hnx       ],fimap[...,iny:,       :hnx       ], norm, op)
+	transfer(fomap[...,ony:,       onx:       ],fimap[...,iny:,       inx:       ], norm, op)
 	if np.any(off != 0):
 		# It's fastest to do this here when downsampling, but when upsampling
 		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-- 
2.43.0


From f0f5a17bcbd2efd9f5e519b15602d7d34be2f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 030/121] fix: nu2u and iu2nu failed for real samples and
 multidimensional sample arrays

---
 pixell/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index 45712ed..6a6f789 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -501,7 +501,7 @@ def nu2u(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=No
 		epsilon=epsilon, nthread=nthread, normalize=normalize, complex=complex)
 	work = np.zeros(h.tshape, h.ctype)
 	for uI, nuI in zip(h.uiter, h.nuiter):
-		res = ducc0.nufft.nu2u(points=h.nu[nuI], coord=h.iflat, out=work,
+		res = ducc0.nufft.nu2u(points=h.nu[nuI].reshape(-1).astype(h.ctype, copy=False), coord=h.iflat, out=work,
 			forward=forward, epsilon=h.epsilon, nthreads=h.nthread,
 			periodicity=h.periodicity, fft_order=True)
 		if not np.iscomplexobj(h.u):
@@ -544,7 +544,7 @@ def iu2nu(a, inds, out=None, oshape=None, axes=None, periodicity=None, epsilon=N
 		# with solution out = (P'P)"P'a. The CG solver wants real numbers, though,
 		# so we hack around that with view
 		# Set up the equation system. Our degrees of freedom are flattened real u
-		b = wzip(PT(h.nu[nuI].reshape(-1)))
+		b = wzip(PT(h.nu[nuI].reshape(-1).astype(h.ctype, copy=False)))
 		def A(x): return wzip(PT(P(wunzip(x))))
 		solver = utils.CG(A, b)
 		while solver.err > h.epsilon:
-- 
2.43.0


From faac0ba7b067c035c2874b5a25896a8949b3ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 031/121] fix: idct(dct(map)) did not give back map

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index aa34eb2..96e9370 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1275,7 +1275,7 @@ def fft(emap, omap=None, nthread=0, normalize=True, adjoint_ifft=False, dct=Fals
 	else:   res  = samewcs(enfft.fft(emap,omap,axes=[-2,-1],nthread=nthread), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_ifft: norm /= emap.pixsize()**0.5
@@ -1288,7 +1288,7 @@ def ifft(emap, omap=None, nthread=0, normalize=True, adjoint_fft=False, dct=Fals
 	else:   res  = samewcs(enfft.ifft(emap,omap,axes=[-2,-1],nthread=nthread, normalize=False), emap)
 	norm = 1
 	if normalize:
-		if dct: norm /= np.prod(2*np.array(emap.shape[-2:])-1)**0.5
+		if dct: norm /= np.prod(2*(np.array(emap.shape[-2:])-1))**0.5
 		else:   norm /= np.prod(emap.shape[-2:])**0.5
 	if normalize in ["phy","phys","physical"]:
 		if adjoint_fft: norm *= emap.pixsize()**0.5
-- 
2.43.0


From d6053d32eb210a19d562bc89fafec9021053fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 032/121] fix: dct_adjoint and idct_adjoint were not the
 adjoints of dct and idct

---
 pixell/enmap.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 96e9370..0050f81 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1307,9 +1307,19 @@ def ifft_adjoint(emap, omap=None, nthread=0, normalize=True):
 	return fft(emap, omap=omap, nthread=nthread, normalize=normalize, adjoint_ifft=True)
 
 def idct_adjoint(emap, omap=None, nthread=0, normalize=True):
-	return fft(emap, omap=omap, nthread=nthread, normalize=normalize, adjoint_ifft=True, dct=True)
+	w = _dct_weight(emap.shape)
+	res = fft(emap/w, omap=omap, nthread=nthread, normalize=normalize, adjoint_ifft=True, dct=True)
+	res *= w
+	return res
 def dct_adjoint(emap, omap=None, nthread=0, normalize=True):
-	return ifft(emap, omap=omap, nthread=nthread, normalize=normalize, adjoint_fft=True, dct=True)
+	w = _dct_weight(emap.shape)
+	res = ifft(emap/w, omap=omap, nthread=nthread, normalize=normalize, adjoint_fft=True, dct=True)
+	res *= w
+	return res
+def _dct_weight(shape):
+	# The weight of each pixel in the DCT-I sum: edges are not mirrored, so they count once
+	wy, wx = [np.where((np.arange(n)==0)|(np.arange(n)==n-1),1.0,2.0) for n in shape[-2:]]
+	return wy[:,None]*wx[None,:]
 
 # These are shortcuts for transforming from T,Q,U real-space maps to
 # T,E,B hamonic maps. They are not the most efficient way of doing this.
-- 
2.43.0


From 4e2d132808100c4ed8f27302210dd50e071d160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:18 +0000
Subject: [PATCH 033/121] fix: wcsutils.scale(corner=False) did not keep the
 center of the first pixel in place

---
 pixell/wcsutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index cf4c7a1..0542dfa 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -194,12 +194,12 @@ def scale(wcs, scale=1, rowmajor=False, corner=True):
 	scale = np.zeros(2)+scale
 	if rowmajor: scale = scale[::-1]
 	wcs = wcs.deepcopy()
-	if corner:
-		wcs.wcs.crpix -= 0.5
+	# crpix counts from 1 at the center of the first pixel
+	off = 0.5 if corner else 1
+	wcs.wcs.crpix -= off
 	wcs.wcs.crpix *= scale
 	wcs.wcs.cdelt /= scale
-	if corner:
-		wcs.wcs.crpix += 0.5
+	wcs.wcs.crpix += off
 	return wcs
 
 #def expand_res(res, default_dirs=[1,-1]):
-- 
2.43.0


From 57cf63487eeb6972aca3491b02f9fb0b334c03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 034/121] fix: Driscoll-Healy maps could not be transformed:
 the pole offsets were swapped

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..4eae179 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1304,7 +1304,7 @@ def get_ducc_geo(wcs, shape=None, tol=1e-6):
 	# makes it easier to read
 	if   hasoff(y1,0.0) and hasoff(y2,0.0):
 		if   near(y1,-1) and near(y2,Ny): name, o1, o2 = "F2", 1, 1
-		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 1, 0
+		elif near(y1, 0) and near(y2,Ny): name, o1, o2 = "DH", 0, 1
 		else: name, o1, o2 = "CC", 0, 0
 	elif hasoff(y1,0.5) and hasoff(y2,0.5): name, o1, o2 = "F1", 0.5, 0.5
 	elif hasoff(y1,0.5) and hasoff(y2,0.0): name, o1, o2 = "MW", 0.5, 0.0
-- 
2.43.0


From 81d2012cca7612a0ca244ca82c9e67ed5dd3a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 035/121] fix: calc_locinfo lost the last row of maps with
 bsize*k+1 rows

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4eae179..8266d36 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1332,7 +1332,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From d1efaedf40c0f2f2cda4d9ff7cdb5646bf163353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 036/121] fix: general transforms of 2d maps with invalid
 pixels failed

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 8266d36..d3a4d21 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -775,7 +775,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -854,7 +854,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From 1b857e11cd0bea32873dc3812797e273f1d1c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 037/121] fix: alm2map ignored the layout of the alm with the
 general method

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index d3a4d21..4c50bb0 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -972,7 +972,7 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	if epsilon is None:
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
-	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "mstart":ainfo.mstart, "nthreads":nthread, "epsilon":epsilon}
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-- 
2.43.0


From 7ce55ad04cde379bd490e4f2da0d32c26f079d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 038/121] fix: map2alm ignored niter with the general method

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4c50bb0..63afad8 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -297,7 +297,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
 			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
-			locinfo=locinfo, weights=weights)
+			locinfo=locinfo, weights=weights, niter=niter)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
 
-- 
2.43.0


From 3f0b1779574c26d79c4d9890e40fcc5b2561a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 039/121] fix: theta_min and theta_max in healpix transforms
 selected the wrong rings

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 63afad8..c80bb6b 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -582,7 +582,7 @@ def apply_minfo_theta_lim(minfo, theta_min=None, theta_max=None):
 	if theta_min is not None: mask &= minfo.theta >= theta_min
 	if theta_max is not None: mask &= minfo.theta <= theta_max
 	res = minfo.copy()
-	for key in ["theta", "nphi", "phi0"]: res[key] = res[key][mask]
+	for key in ["theta", "nphi", "phi0", "offsets", "stride"]: res[key] = res[key][mask]
 	return res
 
 def fill_gauss(arr, bsize=0x10000):
-- 
2.43.0


From 6b303370f9ae7dbf148966edc7a4be0f3d1bc774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 040/121] fix: map2alm_healpix adjoint with copy failed

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index c80bb6b..1d5873e 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -350,7 +350,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=None, deriv=False, copy=False, verbose=False, adjoint=False, niter=0, theta_min=None, theta_max=None, nthread=None):
 	"""map2alm for healpix maps. Similar to healpy's map2alm. See the map2alm docstring for details."""
 	if adjoint:
-		if copy and map is not None: map = map.copy()
+		if copy and healmap is not None: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
 	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
-- 
2.43.0


From a82cd52d62398eff0039dd4b3387d3774dfe25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:37 +0000
Subject: [PATCH 041/121] fix: quad_weights failed with the wrong error for
 geometries without weights

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 1d5873e..da65c3e 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -481,7 +481,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo.name is None:
+	if minfo.ducc_geo is None or minfo.ducc_geo.name is None:
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
-- 
2.43.0


From 97ba861d03832ae0bfb8358fd1aac9677503738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 042/121] fix: adjoint derivative transforms had the wrong sign
 for the dec component, and modified the input map

---
 pixell/curvedsky.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index da65c3e..ba5b4bc 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -337,9 +337,10 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			wmap = flip_first(map_full[I]) if adjoint else map_full[I]
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=wmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -886,9 +887,10 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# pre-dimentions are map.shape[:-3]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			wmap = flip_first(map_full[I]) if adjoint else map_full[I]
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=wmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -922,9 +924,10 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	# dimensions, so this outermost loop usually does nothing
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			wmap = flip_first(map_full[I]) if adjoint else map_full[I]
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=wmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -976,9 +979,10 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			wmap = flip_first(map_full[I]) if adjoint else map_full[I]
+			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=wmap, mode="DERIV1", spin=1, **kwargs)
+			if not adjoint: map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1414,5 +1418,11 @@ def prepare_raw(alm, map, ainfo=None, lmax=None, deriv=False, verbose=False, nth
 	map_full = utils.fix_zero_strides(map_full)
 	return alm_full, map_full, ainfo, nthread
 
+def flip_first(map):
+	"""Return a copy of map with the sign of the first component flipped"""
+	omap = np.array(map)
+	omap[0] *= -1
+	return omap
+
 def dangerous_dtype(dtype):
 	return dtype.byteorder != "="
-- 
2.43.0


From d05af6f565ceccd4988bcfb14cb6c131548aa9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:18 +0000
Subject: [PATCH 043/121] fix: map2alm with deriv failed

---
 pixell/curvedsky.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index ba5b4bc..4e841aa 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -376,10 +376,9 @@ def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weight
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
+			decflip = np.array([-1,1])[:,None]
 			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
-			# does this need an [0] at the end like the other versions have?
-			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)
+			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -1044,7 +1043,7 @@ def map2alm_raw_cyl(map, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=No
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(wmul(map,weights))
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
+			decflip = np.array([-1,1])[:,None]
 			# The with deriv, alm has a shape of [1,nalm]. The [0] reduces this to [nalm]
 			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
 			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
@@ -1080,7 +1079,7 @@ def map2alm_raw_general(map, loc, alm=None, ainfo=None, lmax=None, spin=[0,2], w
 			def YT(map):  return ducc0.sht.experimental.adjoint_synthesis_general(map=map, mode="DERIV1", spin=1, **kwargs)
 			def YTW(map): return YT(map*weights)
 			def WY(alm):  return wmul(Y(alm),weights)
-			decflip = np.array([-1,1])[:,None,None]
+			decflip = np.array([-1,1])[:,None]
 			if adjoint: map_full[I] = jacobi_inverse(YT, WY, utils.fix_zero_strides(alm_full[I][None]), niter=niter)*decflip
 			else:       alm_full[I] = jacobi_inverse(Y, YTW, map_full[I]*decflip, niter=niter)[0]
 		else:
-- 
2.43.0


From 94628b4d1d49bbd6db78b875d693c247a06f9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:55 +0000
Subject: [PATCH 044/121] fix: quadrature weights were always flipped
 vertically, whichever way the map is ordered

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 4e841aa..bc540d0 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -486,7 +486,7 @@ def quad_weights(shape, wcs, pix_tol=1e-6):
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 	weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-	if minfo.flip: weights = weights[::-1]
+	if minfo.flip[0]: weights = weights[::-1]
 	weights/= minfo.ducc_geo.nx
 	return weights
 
@@ -828,7 +828,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 			weights/= minfo.ducc_geo.nx
 		else:
 			weights = map.pixsizemap(separable=True, broadcastable=True)[:,0]
-			if minfo.flip: weights = weights[::-1]
+			if minfo.flip[0]: weights = weights[::-1]
 		weights = weights.astype(map.dtype, copy=False)
 	# Loop over pre-pre-dimensions. ducc usually doesn't do anything clever with
 	# these, so looping in python is cheap
-- 
2.43.0


From 2b91bd46736f452d1a361127490cb9dcc19df27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:50 +0000
Subject: [PATCH 045/121] fix: map2alm of a part of a MW map failed because
 ducc has no grid weights for it

---
 pixell/curvedsky.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index bc540d0..9ce3eb8 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -475,13 +475,16 @@ def get_method(shape, wcs, minfo=None, pix_tol=1e-6):
 
 # Quadrature weights
 
+# The ducc geometries get_gridweights knows about
+ducc_quad_names = ["CC", "F1", "DH", "F2"]
+
 def quad_weights(shape, wcs, pix_tol=1e-6):
 	"""Return the quadrature weights to use for map2alm operations for the given geometry.
 	Only valid for a limited number of cylindrical geometries recognized by ducc. Returns
 	weights[ny] where ny is shape[-2]. For cases where quadrature weights aren't available,
 	it's a pretty good approximation to just use the pixel area."""
 	minfo = analyse_geometry(shape, wcs, tol=pix_tol)
-	if minfo.ducc_geo is None or minfo.ducc_geo.name is None:
+	if minfo.ducc_geo is None or minfo.ducc_geo.name not in ducc_quad_names:
 		raise ValueError("Quadrature weights not available for geometry %s,%s" % (str(shape),str(wcs)))
 	ny      = shape[-2]+np.sum(minfo.ypad)
 	weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
@@ -821,7 +824,7 @@ def map2alm_cyl(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2], we
 	minfo = analyse_geometry(map.shape, map.wcs, tol=pix_tol)
 	# Get our weights, approximate or not
 	if weights is None:
-		if minfo.ducc_geo is not None and minfo.ducc_geo.name is not None:
+		if minfo.ducc_geo is not None and minfo.ducc_geo.name in ducc_quad_names:
 			ny      = map.shape[-2]+np.sum(minfo.ypad)
 			weights = ducc0.sht.experimental.get_gridweights(minfo.ducc_geo.name, ny)
 			weights = weights[minfo.ypad[0]:len(weights)-minfo.ypad[1]]
-- 
2.43.0


From 3ef696586d16cd243a34798a056498d3080d20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 046/121] fix: single precision lmatmul read and wrote beyond
 lmax when the l function is longer

---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From 52b98bf83162cbc4b96e69b0545a9f7cbbd76a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:34 +0000
Subject: [PATCH 047/121] fix: lmul accepted an out array of the wrong type or
 not contiguous, and did not give it the result

---
 cython/cmisc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc.pyx b/cython/cmisc.pyx
index 6b5ea81..9ada4fe 100644
--- a/cython/cmisc.pyx
+++ b/cython/cmisc.pyx
@@ -157,7 +157,7 @@ def lmul(ainfo, alm, lfun, out=None):
 	# The arrays need to be contiguous along the last dimension
 	alm  = aslastcontig(alm,  dtype=ctype)
 	lfun = aslastcontig(lfun, dtype=rtype)
-	if out is not None and not islastcontig(out) and out.dtype != ctype:
+	if out is not None and (not islastcontig(out) or out.dtype != ctype):
 		raise ValueError("lmul's out argument must be contiguous along last axis, and have the same dtype as alm")
 	# Are we doing a matmul?
 	if lfun.ndim == 3 and alm.ndim == 2:
-- 
2.43.0


From dd9e010c268626398f9631d812fc905f724eef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 048/121] fix: sbox_intersect, and so redistribute, used
 np.object, which numpy no longer has

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ff0a96f..77cf779 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1578,7 +1578,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From e5d68d4636b3888ff5e10b8f114d89aa097ed91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 049/121] fix: range_sub lost the second axis when no range is
 left

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 77cf779..550e252 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -970,7 +970,7 @@ def range_sub(a,b, mapping=False):
 			bi -= 1
 		# And advance to the next range in a
 		ai += 1
-	c = np.array(c)
+	c = fixshape(c)
 	# Remove duplicates if necessary
 	abmap=dedup(np.array(abmap))
 	rmap = np.array(rmap)
-- 
2.43.0


From 77bc1f2d0c7a5fa83b44554fa37e12fca92a5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 050/121] fix: box_slice and box_overlap only worked in two
 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 550e252..bab6783 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1307,7 +1307,7 @@ def box_slice(a, b):
 	fa = a.reshape(-1,2,a.shape[-1])
 	fb = b.reshape(-1,2,b.shape[-1])
 	s  = np.minimum(np.maximum(0,fb[None,:]-fa[:,None,0,None]),fa[:,None,1,None]-fa[:,None,0,None])
-	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,2))
+	return s.reshape(a.shape[:-2]+b.shape[:-2]+(2,a.shape[-1]))
 
 def box_area(a):
 	"""Compute the area of a [{from,to},ndim] box, or an array of such boxes."""
-- 
2.43.0


From 8a1c61926280daab9ccaf2fba9cd1dd86631aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 051/121] fix: allgatherv along another axis than the first
 handed MPI a transposed buffer

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index bab6783..226b6b0 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1435,7 +1435,7 @@ def allgatherv(a, comm, axis=0):
 	if must_fix:
 		fa = fa.view(dtype=np.uint8)
 	#print(comm.rank, "fa.shape", fa.shape)
-	ra = fa.reshape(fa.shape[0],-1) if fa.size > 0 else fa.reshape(0,np.prod(fa.shape[1:],dtype=int))
+	ra = np.ascontiguousarray(fa.reshape(fa.shape[0],-1)) if fa.size > 0 else fa.reshape(0,np.prod(fa.shape[1:],dtype=int))
 	N  = ra.shape[1]
 	# Number of elements each task has
 	n  = allgather([len(ra)],comm).reshape(-1)
-- 
2.43.0


From 12c974f231d2d5e8f871753192432cfa1e58e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 052/121] fix: dedup of an empty array, and so range_sub with
 mapping and an empty result, failed

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 226b6b0..9cb9e9b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -531,6 +531,7 @@ class nowarn:
 def dedup(a):
 	"""Removes consecutive equal values from a 1d array, returning the result.
 	The original is not modified."""
+	if len(a) == 0: return a.copy()
 	return a[np.concatenate([[True],a[1:]!=a[:-1]])]
 
 def interpol(arr, inds, out=None, mode="spline", border="nearest",
-- 
2.43.0


From 1f5ac25392834467ee90aafb1d6fcb2434aaa324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:35 +0000
Subject: [PATCH 053/121] fix: redistribute mixed up the boxes when tasks both
 send and receive several

---
 pixell/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9cb9e9b..f65884f 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1553,14 +1553,16 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	comm.Alltoallv((sendbuf, sbufinfo), (recvbuf,rbufinfo))
 
 	# Copy out the result
+	# Each task sent its data with our boxes as the outer loop and its boxes as the inner one
 	off = 0
-	for i1 in range(rboxes.shape[0]):
+	for task in range(len(niarrs)):
 		for i2 in range(rboxes.shape[1]):
-			for rbox in rboxes[i1,i2]:
-				rshape = tuple(sbox_size(rbox))
-				data   = recvbuf[off:off+np.prod(rshape)*presize]
-				oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
-				off += data.size
+			for i1 in [i for i,t in enumerate(nimap) if t == task]:
+				for rbox in rboxes[i1,i2]:
+					rshape = tuple(sbox_size(rbox))
+					data   = recvbuf[off:off+np.prod(rshape)*presize]
+					oarrs[i2][sbox2slice(rbox)] = data.reshape(preshape + rshape)
+					off += data.size
 	return oarrs
 
 def sbox_intersect(a,b,wrap=0):
-- 
2.43.0


From f67819ccdff26bd35d95e696caa28de4f9255811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:35 +0000
Subject: [PATCH 054/121] fix: redistribute across the wrapping point used
 positions outside the arrays

---
 pixell/utils.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f65884f..7d49568 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1525,7 +1525,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(rboxes.shape[0]):
 		count = 0
 		for i2 in range(rboxes.shape[1]):
-			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2])
+			rboxes[i1,i2] = safe_div(rboxes[i1,i2], oboxes[i2], wrap=wrap)
 			for box in rboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 		nrecv[nimap[i1]] += count*presize
@@ -1539,7 +1539,7 @@ def redistribute(iarrs, iboxes, oboxes, comm, wrap=0):
 	for i1 in range(sboxes.shape[0]):
 		count = 0
 		for i2 in range(sboxes.shape[1]):
-			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2])
+			sboxes[i1,i2] = safe_div(sboxes[i1,i2], iboxes[i2], wrap=wrap)
 			for box in sboxes[i1,i2]:
 				count += np.prod(sbox_size(box))
 				sendbuf.append(iarrs[i2][sbox2slice(box)].reshape(-1))
@@ -1637,15 +1637,13 @@ def sbox_div(a,b,wrap=0):
 	b = sbox_fix(b)
 	step  = a[...,2]//b[...,2]
 	num   = (a[...,1]-a[...,0])//a[...,2]
-	start = (a[...,0]-b[...,0])//b[...,2]
+	off   = a[...,0]-b[...,0]
+	# Positions a whole number of wraps apart are the same. Use the first one inside b
+	wrap  = np.zeros(np.shape(off),int)+wrap
+	off   = np.where(wrap!=0, off % (np.where(wrap!=0,wrap,1)*np.sign(b[...,2])), off)
+	start = off//b[...,2]
 	end   = start + step*num
-	res   = np.stack([start,end,step],-1)
-	if wrap:
-		wrap  = np.asarray(wrap,int)[...,None]
-		swrap = wrap.copy()
-		swrap[wrap==0] = 1
-		res[...,:2] -= res[...,0,None]//swrap*wrap
-	return res
+	return np.stack([start,end,step],-1)
 
 def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
-- 
2.43.0


From f1cafd07094015fa7dbe2bfe98a96dea745be8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:35 +0000
Subject: [PATCH 055/121] fix: sbox_mul was wrong when either box is reversed

---
 pixell/utils.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 7d49568..1b276aa 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1649,21 +1649,11 @@ def sbox_mul(a,b):
 	"""Find c such that arr[c] = arr[a][b]"""
 	a = sbox_fix(a).copy()
 	b = sbox_fix(b).copy()
-	# It's easiest to implement this for sboxes in normal ordering.
-	# So we will flip a and b as needed, and then flip back the result
-	# if necessary. First compute which  result entries must be flipped.
-	flip = (a[...,2] < 0)^(b[...,2] < 0)
-	# Then flip
-	a[a[...,2]<0] = sbox_flip(a[a[...,2]<0])
-	b[b[...,2]<0] = sbox_flip(b[b[...,2]<0])
-	# Now that everything is in the right order, we combine
+	# Entry i of a is at a0+i*step, whichever the sign of the step
 	c0 = a[...,0] + b[...,0]*a[...,2]
-	c1 = np.minimum(a[...,0] + b[...,1]*a[...,2],a[...,1])
+	c1 = a[...,0] + np.minimum(b[...,1],sbox_size(a))*a[...,2]
 	c2 = a[...,2]*b[...,2]
-	res = sbox_fix(np.stack([c0,c1,c2],-1))
-	# Flip back where necessary
-	res[flip] = sbox_flip(res[flip])
-	return res
+	return sbox_fix(np.stack([c0,c1,c2],-1))
 
 def sbox_flip(sbox):
 	sbox = sbox_fix0(sbox)
-- 
2.43.0


From dd00814c1c4d62a49573d5616b3da40ab1559e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 056/121] fix: find and find_any failed for empty arrays, and
 find for a missing scalar

---
 pixell/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1b276aa..8c6c8f5 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -106,15 +106,19 @@ def streq(x, s):
 
 def find(array, vals, default=None):
 	"""Return the indices of each value of vals in the given array."""
-	if np.asarray(vals).size == 0: return []
+	vals    = np.asarray(vals)
 	array   = np.asarray(array)
+	if vals.size == 0: return np.zeros(vals.shape, int)
+	if array.size == 0:
+		if default is None: raise ValueError("Value not found in array")
+		return np.full(vals.shape, default)
 	order   = np.argsort(array)
 	cands   = np.minimum(np.searchsorted(array, vals, sorter=order),len(array)-1)
 	res     = order[cands]
 	bad     = array[res] != vals
 	if np.any(bad):
 		if default is None: raise ValueError("Value not found in array")
-		else: res[bad] = default
+		else: res = np.where(bad, default, res)
 	return res
 
 def find_any(array, vals):
-- 
2.43.0


From da918207d61e05a49bc33826d6ee29d132562847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 057/121] fix: contains failed for an empty list of values

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8c6c8f5..825100f 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -151,6 +151,7 @@ def contains(array, vals):
 	for any element in array that is also in vals, and False otherwise."""
 	array = np.asarray(array)
 	vals  = np.asarray(vals)
+	if vals.size == 0: return np.zeros(array.shape, bool)
 	vals  = np.sort(vals)
 	inds  = np.searchsorted(vals, array)
 	# If a value would be inserted after the end, it wasn't
-- 
2.43.0


From 00472ae65fb40a3463a4f9c0bfe7cc414983bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 058/121] fix: complement_inds failed for an empty list of
 indices

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 825100f..4aad962 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -209,7 +209,7 @@ def complement_inds(inds, n):
 	E.g. complement_inds([0,2,4],7) => [1,3,5,6]"""
 	if inds is None: inds = np.arange(n)
 	mask = np.ones(n, bool)
-	mask[np.array(inds)] = False
+	mask[np.array(inds,int)] = False
 	return np.where(mask)[0]
 
 def unmask(arr, mask, axis=0, fill=0):
-- 
2.43.0


From d12ebb48e2e5b111017e29c925c9cbf5fc73b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 059/121] fix: medmean averaged nothing when there was nothing
 to cut

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4aad962..e2beab6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -354,7 +354,7 @@ def medmean(x, axis=None, frac=0.5):
 	else:            x = np.moveaxis(x, axis, -1)
 	x = np.sort(x, -1)
 	i = int(x.shape[-1]*frac)//2
-	return np.mean(x[...,i:-i],-1)
+	return np.mean(x[...,i:x.shape[-1]-i],-1)
 
 def medmean2(x, axis=None, frac=0.1, bsize=None):
 	"""This is what medmean should have bean. This should be faster and have
-- 
2.43.0


From 032808db66f6d79ebbffdcf0a622782f4d87a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 060/121] fix: addaxes and delaxes indexed with a list

---
 pixell/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e2beab6..a37a136 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -489,7 +489,7 @@ def addaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds.insert(ax, None)
-	return a[inds]
+	return a[tuple(inds)]
 
 def delaxes(a, axes):
 	axes = np.array(axes,int)
@@ -497,7 +497,7 @@ def delaxes(a, axes):
 	axes = np.sort(axes)[::-1]
 	inds = [slice(None) for i in a.shape]
 	for ax in axes: inds[ax] = 0
-	return a[inds]
+	return a[tuple(inds)]
 
 class flatview:
 	"""Produce a read/writable flattened view of the given array,
-- 
2.43.0


From b6fd721d8c3d0a8ead347e0bcfbd977f8d476116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 061/121] fix: nearest_product returned the last product found,
 not the highest

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a37a136..1627daf 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -792,7 +792,7 @@ def nearest_product(n, factors, direction="below"):
 			m = i*f
 			if below:
 				if m > n: continue
-				else: best = m
+				if best is None or best < m: best = m
 			else:
 				if m >= n and (best is None or best > m):
 					best = m
-- 
2.43.0


From 6fdfcb1de221f833cce66f2eb821a4ec96970eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 062/121] fix: preflat and postflat kept the wrong dimensions
 for negative n

---
 pixell/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 1627daf..e47103c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1129,14 +1129,14 @@ def preflat(a, n):
 	"""Flatten the first n dimensions of a. If n is negative,
 	flatten all but the last -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape((-1,)+a.shape[n:])
 
 def postflat(a, n):
 	"""Flatten the last n dimensions of a. If n is negative,
-	flatten all but the last -n dimensions."""
+	flatten all but the first -n dimensions."""
 	a = np.asanyarray(a)
-	if n < 0: n = a.ndim-n
+	if n < 0: n = a.ndim+n
 	return a.reshape(a.shape[:a.ndim-n]+(-1,))
 
 def between_angles(a, range, period=2*np.pi):
-- 
2.43.0


From 6d3588f0cabe9b3d7547a4c906db795fe4321236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 063/121] fix: label_multi could give different values the same
 label

---
 pixell/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index e47103c..ec6dc72 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2019,12 +2019,10 @@ def label_multi(valss):
 
 	Example: label_multi([[0,0,1,1,2],["a","b","b","b","b"]]) → [0,1,2,2,3]"""
 	oinds = 0
-	nprev = 1
 	for vals in valss:
 		# remap arbitrary values in vals to integers in inds
 		uvals, inds = np.unique(vals, return_inverse=True)
-		oinds = oinds*nprev + inds
-		nprev = len(uvals)
+		oinds = oinds*len(uvals) + inds
 	# At this point oinds has unique indices, but there could be gaps.
 	# Remove those
 	oinds = np.unique(oinds, return_inverse=True)[1]
-- 
2.43.0


From 0493e04ea4027586ba226eac430b7407c5c79c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 064/121] fix: broadcast_arrays failed for arrays with fewer
 dimensions than at

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index ec6dc72..0415531 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2100,7 +2100,7 @@ def broadcast_arrays(*arrays, npre=0, npost=0, at=0):
 	for i, (n, m, arr) in enumerate(zip(npre, npost, arrays)):
 		if arr is not None:
 			ninsert = len(oshape)-(arr.ndim-n-m)
-			my_at   = n+at if at >= 0 else arr.ndim+1+at-m
+			my_at   = n+min(at,arr.ndim-n-m) if at >= 0 else arr.ndim+1+at-m
 			res[i]  = np.broadcast_to(arr[(slice(None),)*my_at+(None,)*ninsert], arr.shape[:n]+oshape+arr.shape[arr.ndim-m:])
 	return res
 
-- 
2.43.0


From 8ee67cca64ba83c095292327d511ca868d0d5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 065/121] fix: bins2edges returned the wrong last edge

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 0415531..4d43296 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2475,7 +2475,7 @@ def edges2bins(edges):
 	return res
 
 def bins2edges(bins):
-	return np.concatenate([bins[:,0],bins[1,-1:]])
+	return np.concatenate([bins[:,0],bins[-1:,1]])
 
 def linbin(n, nbin=None, nmin=None, bsize=None):
 	"""Given a number of points to bin and the number of approximately
-- 
2.43.0


From 9fe8b71150a3c64ed7690b2f5fe861a36848027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 066/121] fix: expbin never returned when the last points were
 too few for a bin

---
 pixell/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4d43296..b7b3203 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2500,11 +2500,12 @@ def expbin(n, nbin=None, nmin=8, nmax=0):
 	tmp  = np.array(np.exp(np.arange(nbin+1)*np.log(n+1)/nbin)-1,dtype=int)
 	fixed = [tmp[0]]
 	i = 0
-	while i < nbin:
-		for j in range(i+1,nbin+1):
-			if tmp[j]-tmp[i] >= nmin:
-				fixed.append(tmp[j])
-				i = j
+	for j in range(1,nbin+1):
+		if tmp[j]-tmp[i] >= nmin:
+			fixed.append(tmp[j])
+			i = j
+	# Everything goes in one bin if there are too few points
+	if len(fixed) == 1: fixed.append(n)
 	# Optionally split too large bins
 	if nmax:
 		tmp = [fixed[0]]
-- 
2.43.0


From 1e8ec9fb1fe9de24442da747358e23165b38be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 067/121] fix: bin_expand failed for data with more than one
 dimension

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index b7b3203..ae7776b 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2531,7 +2531,7 @@ def bin_data(bins, d, op=np.mean):
 def bin_expand(bins, bdata):
 	res = np.zeros(bdata.shape[:-1]+(bins[-1,1],),bdata.dtype)
 	for bi, b in enumerate(bins):
-		res[...,b[0]:b[1]] = bdata[...,bi]
+		res[...,b[0]:b[1]] = bdata[...,bi,None]
 	return res
 
 def is_int_valued(a): return a%1 == 0
-- 
2.43.0


From f34d6c5948e90c3284f457a9fdcbc3a4b5598cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 068/121] fix: solve failed for vector right hand sides

---
 pixell/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index ae7776b..cd7d528 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2548,12 +2548,15 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	baxes = axes if A.ndim == b.ndim else [axes[0]%A.ndim]
 	fA = partial_flatten(A, axes)
 	fb = partial_flatten(b, baxes)
+	# numpy needs an explicit column axis when solving for several vectors
+	if len(baxes) == 1: fb = fb[...,None]
 	if masked:
 		mask = fA[...,0,0] != 0
 		fb[~mask] = 0
 		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
 	else:
 		fb = np.linalg.solve(fA,fb)
+	if len(baxes) == 1: fb = fb[...,0]
 	return partial_expand(fb, b.shape, baxes)
 
 def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
-- 
2.43.0


From bcd7d74ca7d4d86311761c04b78bff51d436f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 069/121] fix: ndigit returned 2 for one-digit numbers

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index cd7d528..f5ef752 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2734,7 +2734,7 @@ class Printer:
 
 def ndigit(num):
 	"""Returns the number of digits in non-negative number num"""
-	with nowarn(): return np.int32(np.floor(np.maximum(1,np.log10(num))))+1
+	with nowarn(): return np.int32(np.floor(np.log10(np.maximum(1,num))))+1
 
 def contains_any(a, bs):
 	"""Returns true if any of the strings in list bs are found
-- 
2.43.0


From 4beef6ad9b5a035106965355c9456ea28f11d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 070/121] fix: nditer returned an index for arrays with no
 elements

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index f5ef752..33d9773 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -3422,6 +3422,7 @@ def nditer(shape, axes=None):
 	ndim = len(shape)
 	axes = tuple(range(ndim)) if axes is None else tuple(sorted([ax%ndim for ax in axes]))
 	axes = axes[::-1] # will iterate backwards below
+	if any([shape[ax] == 0 for ax in axes]): return
 	I = [slice(None)]*ndim
 	for ax in axes: I[ax] = 0
 	while True:
-- 
2.43.0


From 86378efd50115200cdc966d42c701fe5e4edc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 071/121] fix: point_in_polygon missed edges meeting level with
 the point

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 33d9773..26306ae 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2125,7 +2125,8 @@ def point_in_polygon(points, polys):
 		x2, y2 = verts[...,i,:].T
 		with nowarn():
 			x = -y1*(x2-x1)/(y2-y1) + x1
-		ncross += ((y1*y2 < 0) & (x > 0)).T
+		# Vertices at y=0 count as being above it, so they aren't missed or counted twice
+		ncross += (((y1<0) != (y2<0)) & (x > 0)).T
 	return ncross.T % 2 == 1
 
 def poly_edge_dist(points, polygons):
-- 
2.43.0


From 18a684d7d1ab351b7292b375abf2aa491a6d374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 072/121] fix: eigpow compared with the wrong eigenvalues for
 more than 3 dimensions

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 26306ae..c8b7e45 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2596,7 +2596,7 @@ def eigpow(A, e, axes=[-2,-1], rlim=None, alim=None):
 		if e < 0:
 			aE = np.abs(E)
 			if A.ndim > 2:
-				mask |= (aE < np.max(aE,1)[:,None]*rlim) | (aE < alim)
+				mask |= (aE < np.max(aE,-1)[...,None]*rlim) | (aE < alim)
 			else:
 				mask |= (aE < np.max(aE)*rlim) | (aE < alim)
 		E[~mask] **= e
-- 
2.43.0


From 85a32e21c2d7de14f262d8e55db7195f104b764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:11 +0000
Subject: [PATCH 073/121] fix: partial_expand and flatview failed without any
 axes to keep

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index c8b7e45..4d50fb6 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -478,7 +478,7 @@ def partial_expand(a, shape, axes=[-1], pos=0):
 	original array before flattening, and axes and pos should be
 	the same as those passed to the flatten operation."""
 	a = np.moveaxis(a, pos, -1)
-	axes = np.array(axes)%len(shape)
+	axes = np.array(axes,int)%len(shape)
 	rest = list(np.delete(shape, axes))
 	a = np.reshape(a, list(a.shape[:len(axes)])+rest)
 	return moveaxes(a, range(len(axes)), axes)
-- 
2.43.0


From a3de2b65c7ec5ebe03f7077b2cee7a6f2da8888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:11 +0000
Subject: [PATCH 074/121] fix: solve with masked=True overwrote its right hand
 side

---
 pixell/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4d50fb6..8440ccd 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2553,6 +2553,8 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	if len(baxes) == 1: fb = fb[...,None]
 	if masked:
 		mask = fA[...,0,0] != 0
+		# Work on a copy, so the caller's array isn't overwritten
+		fb   = fb.astype(np.result_type(fA,fb,np.float32))
 		fb[~mask] = 0
 		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
 	else:
-- 
2.43.0


From f42f87fed1967852c8df702d458f98acdca327d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 075/121] fix: interpolation with border="wrap" had the wrong
 period

---
 pixell/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8440ccd..3cb2d04 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -610,7 +610,8 @@ class SplineInterpolator:
 		self.mode, self.order = _ip_get_mode(mode, order)
 		self.npre = npre % arr.ndim
 		self.cval = cval
-		self.border = border
+		# scipy's own "wrap" repeats with a period of n-1 instead of n
+		self.border = "grid-wrap" if border == "wrap" else border
 		if self.mode != "spline": raise ValueError("Unrecognized spline interpolation mode '%s'" % str(mode))
 		arr = np.asanyarray(arr)
 		if self.order > 1:
-- 
2.43.0


From 88439c6be9357e29e8bd9914ea9477803b43aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 076/121] fix: project returned the input when only the shape
 differed

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0050f81..d161f69 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -610,7 +610,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 	  one go, ignoring bsize"""
 	# Skip expensive operation if map is compatible
 	if not force:
-		if wcsutils.equal(map.wcs, wcs) and tuple(shape[-2:]) == tuple(shape[-2:]):
+		if wcsutils.equal(map.wcs, wcs) and tuple(map.shape[-2:]) == tuple(shape[-2:]):
 			return map.copy()
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
-- 
2.43.0


From a7ae6e12e88cb287eb40add6dd1f8d5533aa75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 077/121] fix: project ignored cval and border above and below
 the map, and lost the last row for order 0

---
 pixell/enmap.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index d161f69..7146e96 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -615,6 +615,7 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 		elif wcsutils.is_compatible(map.wcs, wcs) and border == "constant":
 			return extract(map, shape, wcs, cval=cval)
 	omap = zeros(map.shape[:-2]+shape[-2:], wcs, map.dtype)
+	mode, order = utils._ip_get_mode(mode, order)
 	# Save memory by looping over rows. This won't work for non-"prefiltered" interpolators
 	if ip and not ip.prefiltered: bsize=100000000
 	# Avoid unneccessary padding for local cases
@@ -626,12 +627,16 @@ def project(map, shape, wcs, mode="spline", order=3, border="constant",
 		i2     = min(i1+bsize, shape[-2])
 		somap  = omap[...,i1:i2,:]
 		pix    = map.sky2pix(somap.posmap(), safe=safe)
-		if ip:
-			# Can't subdivide interpolator
+		if ip or (mode == "spline" and border != "constant"):
+			# Can't subdivide interpolator, and other borders depend on the whole map
 			band = map
 		else:
-			y1     = np.min(pix[0]).astype(int)-context
-			y2     = np.max(pix[0]).astype(int)+context+1
+			y1     = np.floor(np.min(pix[0])).astype(int)-context
+			y2     = np.floor(np.max(pix[0])).astype(int)+context+2
+			if context <= 1:
+				# Stay inside the map, so the interpolation can handle its borders
+				y1 = min(max(y1, 0), map.shape[-2]-1)
+				y2 = min(max(y2, y1+1), map.shape[-2])
 			pix[0]-= y1
 			band   = map.extract_pixbox([[y1,0],[y2,map.shape[-1]]])
 			# Apodize if necessary
-- 
2.43.0


From 6b2b6b4e5f8e840057eb3c2e4fa49b6fe83ec898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 078/121] fix: lens_map_flat passed its border condition as
 interpolation mode

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 9145a85..75258c9 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -70,9 +70,9 @@ def lens_map_flat(cmb_map, phi_map):
 	raw_pix  = cmb_map.pixmap() + enmap.grad_pix(phi_map)
 	# And extract the interpolated values. Because of a bug in map_pixels with
 	# mode="wrap", we must handle wrapping ourselves.
-	npad = int(np.ceil(max(np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
+	npad = int(np.ceil(max(0,np.max(-raw_pix),np.max(raw_pix-np.array(cmb_map.shape[-2:])[:,None,None]))))
 	pmap = enmap.pad(cmb_map, npad, wrap=True)
-	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, mode="wrap"), cmb_map)
+	return enmap.samewcs(utils.interpol(pmap, raw_pix+npad, order=4, border="wrap"), cmb_map)
 
 ######## Curved sky lensing ########
 
-- 
2.43.0


From 2ecd30482b7c26b8299938e5511bd5f5e4716589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:12 +0000
Subject: [PATCH 079/121] fix: spline interpolation with border=nearest did not
 continue the edge value outside the array

---
 pixell/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index 3cb2d04..462286e 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -621,6 +621,9 @@ class SplineInterpolator:
 		self.arr = arr
 	def __call__(self, inds, out=None):
 		inds, out = _ip_prepare(self, inds, out=out)
+		if self.border == "nearest":
+			# The border condition applies to the values, not the spline coefficients
+			inds = np.array([np.clip(ind, 0, n-1) for ind, n in zip(inds, self.arr.shape[self.npre:])])
 		# Do the actual interpolation
 		for I in nditer(self.arr.shape[:self.npre]):
 			out[I] = scipy.ndimage.map_coordinates(self.arr[I], inds, order=self.order,
-- 
2.43.0


From 2b754a41d137c91ab22d02c57427fea1653e834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 080/121] fix: TileMap.with_tiles failed when the number of
 active tiles differs

---
 pixell/tilemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index b126e64..e5263c9 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -116,7 +116,7 @@ class TileMap(np.ndarray):
 		should be considerably faster."""
 		try: active = other.geometry.active
 		except AttributeError: active = _parse_active(other, self.ntile)
-		if np.all(active == self.geometry.active):
+		if len(active) == self.nactive and np.all(active == self.geometry.active):
 			return self.copy()
 		# Construct the new geometry
 		if strict: new_geom = self.geometry.copy(active    =active)
-- 
2.43.0


From 700967eded388999e9e9e6435959476dc50ee6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 081/121] fix: multimap.full failed for maps with non-pixel
 dimensions

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..3d94201 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -118,7 +118,7 @@ def full(geometries, val, dtype=None):
 	omaps= ndmaps(flat, geometries)
 	# Fill with target values
 	for i, map in enumerate(omaps.maps):
-		map[:] = val[...,i]
+		map[:] = val[...,i,None,None]
 	return omaps
 
 def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float64):
-- 
2.43.0


From 5d1ba94b345c161c4203d1a0f14eedfe10a19d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:07 +0000
Subject: [PATCH 082/121] fix: the pixmap, lmap and modlmap of a multimap
 failed, and posmap and modrmap ignored safe and corner

---
 pixell/multimap.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 3d94201..211d9e8 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -127,23 +127,23 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From 5dba2dee9734fbd7b3641ab699ffb04353cd9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:50 +0000
Subject: [PATCH 083/121] fix: tilemap.redistribute mixed up tiles when their
 order differs between tasks

---
 pixell/tilemap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pixell/tilemap.py b/pixell/tilemap.py
index e5263c9..d04a748 100644
--- a/pixell/tilemap.py
+++ b/pixell/tilemap.py
@@ -457,11 +457,14 @@ def redistribute(imap, comm, active=None, omap=None):
 	osizes    = omap.geometry.npixs[omap.active] * np.prod(omap.pre).astype(int)
 	ioffs     = utils.cumsum(isizes)
 	ooffs     = utils.cumsum(osizes)
+	# The sender and receiver must agree on the order of the tiles in each message, so use global tile order
+	iorder    = np.argsort(imap.active)
+	oorder    = np.argsort(omap.active)
 	# 4. Build our alltoallv send info
 	iflat     = np.ascontiguousarray(imap.T).reshape(-1)
 	send_sizes= np.sum(omask*isizes,1)
 	send_offs = utils.cumsum(send_sizes)
-	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for rank, iact in np.argwhere(omask)]
+	send_buf  = [iflat[ioffs[iact]:ioffs[iact]+isizes[iact]] for iact in iorder[np.argwhere(omask[:,iorder])[:,1]]]
 	send_buf  = np.concatenate(send_buf, dtype=iflat.dtype) if len(send_buf) > 0 else np.zeros(0, iflat.dtype)
 	# 5. Build the alltoallv receive info
 	recv_sizes= np.sum(imask*osizes,1)
@@ -473,7 +476,7 @@ def redistribute(imap, comm, active=None, omap=None):
 	# 7. Copy and reduce into flattened output tiles
 	oflat     = np.zeros(omap.size, omap.dtype)
 	rbuf_off  = 0
-	for rank, oact in np.argwhere(imask):
+	for oact in oorder[np.argwhere(imask[:,oorder])[:,1]]:
 		oflat[ooffs[oact]:ooffs[oact]+osizes[oact]] += recv_buf[rbuf_off:rbuf_off+osizes[oact]]
 		rbuf_off += osizes[oact]
 	del recv_buf
-- 
2.43.0


From cad942673a1bf0dc097b161bdb4cc2f2ea9b7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 084/121] fix: sym_compress and sym_expand used the wrong axes
 when not operating on the first ones

---
 pixell/powspec.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..e5392cf 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -12,12 +12,14 @@ def sym_compress(mat, which=None, n=None, scheme=None, axes=[0,1], combined=Fals
 	elements). The 'axes' argument indicates which axes to operate on."""
 	if n is None: n = mat.shape[axes[0]]*(mat.shape[axes[0]]+1)//2
 	if which==None: which = compressed_order(n, scheme)
-	m = np.rollaxis(np.rollaxis(mat, axes[1]), axes[0])
+	m = np.moveaxis(mat, axes, [0,1])
 	if combined:
 		res = np.array([m[w[0],w[1]]+m[w[1],w[0]]*(w[1]!=w[0]) for w in which])
 	else:
 		res = np.array([m[w[0],w[1]] for w in which])
-	return np.rollaxis(res, 0, axes[0])
+	# Put the compressed axis where the first of the two original axes was
+	ax1, ax2 = [ax % mat.ndim for ax in axes]
+	return np.moveaxis(res, 0, ax1-(ax2<ax1))
 
 def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False):
 	"""The inverse of sym_compress. Expands a flat array of numbers
@@ -25,7 +27,8 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	mapping which (or construct one using the given scheme)."""
 	if which==None: which = compressed_order(mat.shape[axis], scheme=scheme)
 	if ncomp==None: ncomp = np.max(which)+1
-	m = np.rollaxis(mat, axis)
+	axis = axis % mat.ndim
+	m = np.moveaxis(mat, axis, 0)
 	shape = [ncomp,ncomp] + list(m.shape[1:])
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
@@ -33,7 +36,7 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 		res[w[0],w[1]] = m[i]
 		if w[0] != w[1]:
 			res[w[1],w[0]] = m[i]
-	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
+	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
 	# This complicated ordering doesn't fit into any of our expansion patterns,
-- 
2.43.0


From e8d098f00a6305cfb56c901d30106df5fe93f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 085/121] fix: sym_expand ignored its combined argument

---
 pixell/powspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index e5392cf..72afc48 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -33,9 +33,9 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	return np.moveaxis(res, [0,1], [axis,axis+1])
 
 def sym_expand_camb_full_lens(a):
-- 
2.43.0


From ac4315f0c4d8ce88b4700d69bd0755bfe7f3e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 086/121] fix: calc_beam_area used a function scipy no longer
 has

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 462286e..8e61016 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2307,7 +2307,7 @@ def calc_beam_area(beam_profile):
 	r is in radians, b should have a peak of 1.."""
 	from scipy import integrate
 	r, b = beam_profile
-	return integrate.simps(2*np.pi*r*b,r)
+	return integrate.simpson(2*np.pi*r*b, x=r)
 
 def planck(f, T=T_cmb):
 	"""Return the Planck spectrum at the frequency f and temperature T in Jy/sr"""
-- 
2.43.0


From ee0ef54614854752d6ff7444a1968f0522e9b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 087/121] fix: smooth_spectrum did not use the weights it was
 given

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 7146e96..0c2a0e6 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1926,6 +1926,7 @@ def smooth_spectrum(ps, kernel="gauss", weight="mode", width=1.0):
 	else:
 		tmp = np.atleast_2d(weight)
 		assert tmp.shape[-1] == W.shape[-1], "Spectrum weight must have the same length as spectrum"
+		W[:] = tmp
 	pWK = _convolute_sym(pflat*W, K)
 	WK  = _convolute_sym(W, K)
 	res = pWK/WK
-- 
2.43.0


From 89044321b365a1f57af744f1cf1017ed306d60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:24 +0000
Subject: [PATCH 088/121] fix: lensing.rand_alm with phi_seed gave the highest
 m=0 coefficient an imaginary part, and needed ncomp

---
 pixell/lensing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index 75258c9..a198d42 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -254,13 +254,13 @@ def rand_alm(ps_lensinput, lmax=None, dtype=np.float64, seed=None, phi_seed=None
 	else:
 		# We want separate seeds for cmb and phi. This means we have to do things a bit more manually
 		wps, ainfo = curvedsky.prepare_ps(ps_lensinput, lmax=lmax)
-		alm = np.empty([1+ncomp,ainfo.nelem],ctype)
+		alm = np.empty([wps.shape[0],ainfo.nelem],ctype)
 		curvedsky.rand_alm_white(ainfo, alm=alm[:1], seed=phi_seed)
 		curvedsky.rand_alm_white(ainfo, alm=alm[1:], seed=seed)
 		ps12 = enmap.multi_pow(wps, 0.5)
 		ainfo.lmul(alm, (ps12/2**0.5).astype(dtype), alm)
-		alm[:,:ainfo.lmax].imag  = 0
-		alm[:,:ainfo.lmax].real *= 2**0.5
+		alm[:,:ainfo.lmax+1].imag  = 0
+		alm[:,:ainfo.lmax+1].real *= 2**0.5
 		del wps, ps12
 		
 	# Return phi_alm and cmb_alm
-- 
2.43.0


From 72c93b6d82b6ab5a0208c79ce6cb340a58116a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:24 +0000
Subject: [PATCH 089/121] fix: aberration continued fullsky maps across the
 poles with the wrong pixels

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..e2baec4 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -250,7 +250,7 @@ def interpol_map(imap, pixs, epsilon=None, nthread=None, ydouble=False):
 		# fullsky maps, but makes less sense for partial sky maps
 		dmap = enmap.zeros(imap.shape[:-2]+(2*ny,nx), imap.wcs, imap.dtype)
 		dmap[...,:ny,:] = imap
-		dmap[...,ny:,:] = np.roll(imap[...,::-1], nx//2, -1)
+		dmap[...,ny:,:] = np.roll(imap[...,::-1,:], nx//2, -1)
 	else:
 		dmap = imap
 	periodicity = np.array(dmap.shape[-2:])
-- 
2.43.0


From 604bedf0138b96011456811ec416709225b72dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:24 +0000
Subject: [PATCH 090/121] fix: lin2T modulation ignored T0 when subtracting the
 monopole

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index e2baec4..7932ac3 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -350,7 +350,7 @@ def _modulate_lin2T(map, A, T0=utils.T_cmb, freq=150e9, map_unit=1e-6, spin=0, d
 			oval  = iplanck(freq, oval)
 			# Apply modulation
 			oval *= a
-			oval -= utils.T_cmb
+			oval -= T0
 			map[y,x] = oval/map_unit
 
 @numba.njit
-- 
2.43.0


From 4ccbaf17929b55b0a29f5a4d5e45553921cb24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:24 +0000
Subject: [PATCH 091/121] fix: Modulator failed instead of warning about a
 different dtype

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 7932ac3..3a613e6 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -1,4 +1,4 @@
-import numpy as np, numba, ducc0, time
+import numpy as np, numba, ducc0, time, warnings
 from . import coordinates, enmap, utils, curvedsky, wcsutils
 
 beta    = 0.001235
-- 
2.43.0


From e7fb70874efb760921de3e1b596774aa3ced2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 092/121] fix: lens_map_curved failed when delta_theta was a
 single row of pixels or less

---
 pixell/lensing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/lensing.py b/pixell/lensing.py
index a198d42..c5e14f5 100644
--- a/pixell/lensing.py
+++ b/pixell/lensing.py
@@ -190,10 +190,10 @@ def lens_map_curved(shape, wcs, phi_alm, cmb_alm, phi_ainfo=None, maplmax=None,
 	if len(oshape) == 2: shape = (1,)+tuple(shape)
 	if delta_theta is None: bsize = shape[-2]
 	else:
-		bsize = utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1]))
+		bsize = max(1,utils.nint(abs(delta_theta/utils.degree/wcs.wcs.cdelt[1])))
 		# Adjust bsize so we don't get any tiny blocks at the end
 		nblock= shape[-2]//bsize
-		bsize = int(shape[-2]/(nblock+0.5))
+		bsize = max(1,int(shape[-2]/(nblock+0.5)))
 	# Allocate output maps
 	if "p" in output: phi_map   = enmap.empty(shape[-2:], wcs, dtype=dtype)
 	if "k" in output:
-- 
2.43.0


From 95b16ffc72b38ee0d5a0d6e6d8b5fdae0112aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:33 +0000
Subject: [PATCH 093/121] fix: find_blank_edges supports a blank value per
 component

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0c2a0e6..3b74877 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2291,14 +2291,14 @@ def find_blank_edges(m, value="auto"):
 	"value" determines which value is considered blank. Can be a float value,
 	or the strings "auto" or "none". Auto will choose the value that maximizes
 	the edge area considered blank. None will result in nothing being consideered blank."""
-	if value == "auto":
+	if isinstance(value, str) and value == "auto":
 		# Find the median value along each edge
 		medians = [np.median(m[...,:,i],-1) for i in [0,-1]] + [np.median(m[...,i,:],-1) for i in [0,-1]]
 		bs = [find_blank_edges(m, med) for med in medians]
 		nb = [np.prod(np.sum(b,0)) for b in bs]
 		blanks = bs[np.argmax(nb)]
 		return blanks
-	elif value == "none":
+	elif isinstance(value, str) and value == "none":
 		# Don't use any values for cropping, so no cropping is done
 		return np.zeros([2,2],dtype=int)
 	else:
-- 
2.43.0


From 91e0967d167e3c9f7e03b25b87364563f12cfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:33 +0000
Subject: [PATCH 094/121] fix: autocrop respects its factors argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 3b74877..5d29ba9 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2328,7 +2328,7 @@ def autocrop(m, method="plain", value="auto", margin=0, factors=None, return_inf
 	if method == "plain":
 		goodshape = minshape
 	elif method == "fft":
-		goodshape = np.array([enfft.fft_len(l, direction="above", factors=None) for l in minshape])
+		goodshape = np.array([enfft.fft_len(l, direction="above", factors=factors) for l in minshape])
 	else:
 		raise ValueError("Unknown autocrop method %s!" % method)
 	# Pad if necessary
-- 
2.43.0


From 3c39363504e8301d681664af8bc92d3b4f1213ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:07 +0000
Subject: [PATCH 095/121] fix: sim_objects respects its op argument

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..75a531f 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
-- 
2.43.0


From 1d95b381a2ef4dcd842e5fbb9f37eb2be71ab890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 096/121] fix: sim_srcs passes its op and pixwin_order on

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 75a531f..2e9027d 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From bf824bca0ac01443354153fdaf3dd529e57168a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 097/121] fix: sim_srcs method python uses the current interpol
 interface

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 2e9027d..5473226 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -333,7 +333,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1, mask_nan=False) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], mode="linear", border="constant") # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From f5e982b93dd1813b25a75c3aea3d73376f57f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 098/121] fix: radial_sum accepts maps of any data type and
 memory order

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 5473226..684eb4b 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -158,7 +158,7 @@ def radial_sum(map, poss, bins, oprofs=None, separable="auto",
 	nobj     = len(obj_decs)
 	# map and number of components
 	pre      = map.shape[:-2]
-	map_flat = map.preflat
+	map_flat = np.ascontiguousarray(map.preflat, dtype=dtype)
 	ncomp    = len(map_flat)
 	# bins
 	bins     = np.asarray(bins, dtype=dtype)
-- 
2.43.0


From 19b069c54e81bdf99c42413c1ebde08bd420df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 099/121] fix: radial_sum fills the last bin

---
 cython/srcsim_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..5940502 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -807,7 +807,7 @@ void radial_sum(
 		double * times    // Time taken in the different steps
 	) {
 	// 1. Figure out how far away we need to consider each object
-	float rmax    = rs[nbin-1];
+	float rmax    = rs[nbin];
 	// 2. Loop over each object
 	double t1     = wall_time();
 	#pragma omp parallel for
@@ -825,7 +825,7 @@ void radial_sum(
 				if(separable) { dec = pix_decs[y];      ra = pix_ras[x];      }
 				else          { dec = pix_decs[y*nx+x]; ra = pix_ras[y*nx+x]; }
 				float r = calc_dist(dec, ra, obj_decs[oi], obj_ras[oi]);
-				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin, rs, r);
+				int i   = equi ? equi_search(nbin, rs, r) : binary_search(nbin+1, rs, r);
 				if(i < 0 || i >= nbin) continue;
 				for(int ci = 0; ci < ncomp; ci++)
 					bins[oi][ci][i] += imap[ci][y*nx+x];
-- 
2.43.0


From 9d6fb3879a57ce8a513721825352354e7a5ef5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 100/121] fix: simulated objects keep their full radius when
 many share a profile

---
 cython/srcsim_core.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 5940502..920e069 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -258,19 +258,14 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 				vmax = v;
 			}
 		}
-		// This corresponds to cases where the cutoff is bigger than
-		// any value the beam can reach. Should really set it to 0
-		// in this case, but easier for measure_rmax if se set it to
-		// 1
-		prof_info[i*prof_levels+0] = 1;
 		// The last level just goes all the way out to the end
 		prof_info[i*prof_levels+prof_levels-1] = prof_ns[i];
 		// Populate the others by inwards from the edge
 		int ri = prof_ns[i]-1;
-		for(int li = prof_levels-2; li > 0; li--) {
-			float vlim = vmax * powf(prof_base, -li);
+		for(int li = prof_levels-2; li >= 0; li--) {
+			float vlim = powf(prof_base, -li);
 			for(; ri > imax && fabsf(prof_vs[i][ri]) < vlim; ri--);
-			prof_info[i*prof_levels+li] = ri;
+			prof_info[i*prof_levels+li] = ri+1;
 		}
 	}
 	return prof_info;
-- 
2.43.0


From 1268a1f0435a08660652413be28eca09f404527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 101/121] fix: simulated objects keep their full radius when
 vmin is zero and many share a profile

---
 cython/srcsim_core.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 920e069..d40048d 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -274,10 +274,10 @@ int * build_prof_info(int nprof, int * prof_ns, float ** prof_vs) {
 int prof_info_lookup(int * prof_info, int prof, float vrel) {
 	// Calculate what power of our base (e.g. power of ten) we are
 	// away from the profile peak
-	int ind = (int)ceilf(-logf(vrel)/logf(prof_base));
-	// Cap to [0:nlevel]
-	if(ind < 0) ind = 0;
-	else if(ind >= prof_levels) ind = prof_levels-1;
+	float find = ceilf(-logf(vrel)/logf(prof_base));
+	// Cap to [0:nlevel]. This must be done before converting to int,
+	// since find is infinite for vrel = 0
+	int ind = find >= prof_levels ? prof_levels-1 : find > 0 ? (int)find : 0;
 	// And look up the relevant starting point in the profile
 	return prof_info[prof_levels*prof+ind];
 }
-- 
2.43.0


From 59b8fac4e67184b712b8fcff252d02bd62768002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:08 +0000
Subject: [PATCH 102/121] fix: make_equispaced uses the current interpol
 interface

---
 pixell/resample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..95c1421 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -134,5 +134,7 @@ def make_equispaced(d, t, quantile=0.1, order=3, mask_nan=False):
 	# To interpolate, we need the input sample number as a function of time
 	samples = np.interp(tout, t, np.arange(len(t)))
 	# Now that we have the samples we can finally evaluate the function
-	dout = utils.interpol(d, samples[None], mode="nearest", order=order, mask_nan=mask_nan)
+	mask = ~np.isfinite(d) if mask_nan else None
+	dout = utils.interpol(np.where(mask, 0, d) if mask_nan else d, samples[None], border="nearest", order=order)
+	if mask_nan: dout[utils.interpol(mask.astype(int), samples[None], mode="nn")!=0] = np.nan
 	return dout, tout
-- 
2.43.0


From 63dc28e48b5860f75fa76f93230c8b42bf3f2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:41 +0000
Subject: [PATCH 103/121] fix: simulated objects wrap around maps that are not
 a whole number of cells wide

---
 cython/srcsim_core.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index d40048d..f4f13a3 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -141,7 +141,7 @@ void estimate_bounding_box(
 		float * pix_ras,  //
 		int * box         // {y1,y2,x1,x2} in pixels.
 	);
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox);
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int ncy, int ncx, int * cellbox);
 void wrap_box(int * box, int ny, int nx);
 
 typedef struct IntList { int n, cap; int * vals; } IntList;
@@ -364,7 +364,7 @@ int assign_cells(
 		// This means that the sloppy wrapping we do that doesn't know about
 		// the real wrapping length of the sky will not cover any tile more than
 		// once.
-		pixbox2cellbox(pixbox, csize, ncy, ncx, cellboxes+4*oi);
+		pixbox2cellbox(pixbox, csize, ny, nx, ncy, ncx, cellboxes+4*oi);
 		wrap_box(cellboxes+4*oi, ncy, ncx);
 	}
 	// 3. For each cell in each object's cell box, register the object in that cell.
@@ -424,12 +424,16 @@ int assign_cells(
 int mod(int a, int b) { int c = a % b; return c < 0 ? c+b : c; }
 int floor_div(int a, int b) { int c = a / b; return c*b > a ? c-1 : c; }
 
+// Find the cell a pixel is in. The map repeats every n pixels and the cells every
+// nc cells. These do not need to match, since the last cell can be smaller than csize.
+int pix2cell(int pix, int csize, int n, int nc) { return floor_div(pix, n)*nc + mod(pix, n)/csize; }
+
 // Convert y1 y2 x1 x2 -> cy1 cy2 cx1 cx2. The ranges are
 // half-open like in python
-void pixbox2cellbox(int * pixbox, int csize, int ncy, int ncx, int * cellbox) {
+void pixbox2cellbox(int * pixbox, int csize, int ny, int nx, int ncy, int ncx, int * cellbox) {
 	// Go from raw pixel bounds to raw cell bounds
-	int cy1 = floor_div(pixbox[0], csize), cy2 = floor_div(pixbox[1]-1, csize)+1;
-	int cx1 = floor_div(pixbox[2], csize), cx2 = floor_div(pixbox[3]-1, csize)+1;
+	int cy1 = pix2cell(pixbox[0], csize, ny, ncy), cy2 = pix2cell(pixbox[1]-1, csize, ny, ncy)+1;
+	int cx1 = pix2cell(pixbox[2], csize, nx, ncx), cx2 = pix2cell(pixbox[3]-1, csize, nx, ncx)+1;
 	// Put into output
 	cellbox[0] = cy1; cellbox[1] = cy2;
 	cellbox[2] = cx1; cellbox[3] = cx2;
-- 
2.43.0


From 543ee06ef50324015dcf35966088d8d72d723451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:41 +0000
Subject: [PATCH 104/121] fix: sim_srcs method python works on small maps

---
 pixell/pointsrcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 684eb4b..7117edb 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -285,7 +285,9 @@ def sim_srcs_python(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rma
 	# Pad our map by rmax, so we get the contribution from sources
 	# just ourside our area. We will later split our map into cells of size cres. Let's
 	# adjust the padding so we have a whole number of cells
-	minshape = np.min(omap[...,5:-5:10,5:-5:10].pixshapemap()/10,(-2,-1))
+	coarse   = omap[...,5:-5:10,5:-5:10]
+	if coarse.size > 0: minshape = np.min(coarse.pixshapemap()/10,(-2,-1))
+	else:               minshape = np.min(omap.pixshapemap(),(-2,-1))
 	cres = np.maximum(1,utils.nint(rmax/minshape))
 	epix = cres-(omap.shape[-2:]+2*cres)%cres
 	padding = [cres,cres+epix]
-- 
2.43.0


From da654b1eedaccc6d3f77acd1c1be11bc810b7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 105/121] fix: range_sub handles empty ranges before the first
 range to remove

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 8e61016..0b34e8c 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -977,7 +977,7 @@ def range_sub(a,b, mapping=False):
 			# so undo the previous increment. This may lead to
 			# the same b being added twice. We will handle that
 			# by removing duplicates at the end.
-			bi -= 1
+			bi = max(bi-1,0)
 		# And advance to the next range in a
 		ai += 1
 	c = fixshape(c)
-- 
2.43.0


From c5dbddc36dc99d414136780745fac609f2029f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 106/121] fix: resample_fft misplaced the highest positive
 frequency for odd lengths

---
 pixell/resample.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 95c1421..3dbb4c3 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -86,12 +86,12 @@ def resample_fft(d, n, axes=None):
 		dn   = nnew-nold
 		if dn > 0:
 			padvals = np.zeros(fd.shape[:ax]+(dn,)+fd.shape[ax+1:],fd.dtype)
-			spre  = tuple([slice(None)]*ax+[slice(0,nold//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nold//2,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nold+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nold+1)//2,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],padvals,fd[spost]],axis=ax)
 		elif dn < 0:
-			spre  = tuple([slice(None)]*ax+[slice(0,nnew//2)]+[slice(None)]*(fd.ndim-ax-1))
-			spost = tuple([slice(None)]*ax+[slice(nnew//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
+			spre  = tuple([slice(None)]*ax+[slice(0,(nnew+1)//2)]+[slice(None)]*(fd.ndim-ax-1))
+			spost = tuple([slice(None)]*ax+[slice((nnew+1)//2-dn,None)]+[slice(None)]*(fd.ndim-ax-1))
 			fd = np.concatenate([fd[spre],fd[spost]],axis=ax)
 		norm *= float(nnew)/nold
 	# And transform back
@@ -110,9 +110,9 @@ def resample_fft_simple(d, n, ngroup=100):
 	for di in range(0, d.shape[0], ngroup):
 		fd = fft.fft(d[di:di+ngroup])
 		if n < nold:
-			fd = np.concatenate([fd[:,:n//2],fd[:,n//2-dn:]],1)
+			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
-			fd = np.concatenate([fd[:,:nold//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,nold//2:]],-1)
+			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
 		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
 		del fd
 	res *= float(n)/nold
-- 
2.43.0


From 46624f45fc36e9f8f7a54cec84bb5deca76491c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 107/121] fix: resample_fft compared the lengths of the last
 axes instead of the given ones

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 3dbb4c3..bf5b951 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -67,7 +67,7 @@ def resample_fft(d, n, axes=None):
 	else: assert len(n) == len(axes)
 	assert len(n) <= d.ndim
 	# Nothing to do?
-	if np.all(d.shape[-len(n):] == n): return d
+	if np.all(np.array(d.shape)[axes] == n): return d
 	# Use the simple version if we can. It has lower memory overhead
 	if d.ndim == 2 and len(n) == 1 and (axes[0] == 1 or axes[0] == -1):
 		return resample_fft_simple(d, n[0])
-- 
2.43.0


From 5b279f420ded4227dea53eb6f7ce8835a97d4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 108/121] fix: resample_fft_simple dropped the imaginary part
 of complex data

---
 pixell/resample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index bf5b951..6f5a749 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -113,7 +113,9 @@ def resample_fft_simple(d, n, ngroup=100):
 			fd = np.concatenate([fd[:,:(n+1)//2],fd[:,(n+1)//2-dn:]],1)
 		else:
 			fd = np.concatenate([fd[:,:(nold+1)//2],np.zeros([len(fd),n-nold],fd.dtype),fd[:,(nold+1)//2:]],-1)
-		res[di:di+ngroup] = fft.ifft(fd, normalize=True).real
+		tmp = fft.ifft(fd, normalize=True)
+		res[di:di+ngroup] = tmp if np.iscomplexobj(d) else tmp.real
+		del tmp
 		del fd
 	res *= float(n)/nold
 	return res
-- 
2.43.0


From cbd81037d4c899165f4ea010d5c82d95bb00b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 109/121] fix: upsample_bin assigned default axes in reverse
 order

---
 pixell/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 6f5a749..1f3027b 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -40,7 +40,7 @@ def downsample_bin(d, steps=[2], axes=None):
 def upsample_bin(d, steps=[2], axes=None):
 	shape = d.shape
 	assert len(steps) <= d.ndim
-	if axes is None: axes = np.arange(-1,-len(steps)-1,-1)
+	if axes is None: axes = range(-len(steps),0)
 	assert len(axes) == len(steps)
 	# Expand steps to cover every axis in order
 	fullsteps = np.zeros(d.ndim,dtype=int)+1
-- 
2.43.0


From 123a3439cee6ee6e0ac752178c5b8cf4dc1ca347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:40 +0000
Subject: [PATCH 110/121] fix: make_equispaced returned only the first sample
 for decreasing times

---
 pixell/resample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 1f3027b..29f52c3 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -134,7 +134,9 @@ def make_equispaced(d, t, quantile=0.1, order=3, mask_nan=False):
 	# Construct our output time steps
 	tout = np.arange(nout)*dt + t[0]
 	# To interpolate, we need the input sample number as a function of time
-	samples = np.interp(tout, t, np.arange(len(t)))
+	# (np.interp needs increasing times)
+	sign = -1 if t[-1] < t[0] else 1
+	samples = np.interp(tout*sign, t*sign, np.arange(len(t)))
 	# Now that we have the samples we can finally evaluate the function
 	mask = ~np.isfinite(d) if mask_nan else None
 	dout = utils.interpol(np.where(mask, 0, d) if mask_nan else d, samples[None], border="nearest", order=order)
-- 
2.43.0


From 161a2371051e085be9b747c787cf74e9a652bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 111/121] fix: enmap.resample_fft shifted what it was asked to
 add to

---
 pixell/enmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 5d29ba9..fa34bd8 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3180,6 +3180,11 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		elif norm == "pix":    norm = (fomap.npix/fimap.npix)**0.5 # Corresponds to normalize=True, enmap.fft default
 		elif norm == "phys":   norm = 1 # Corresponds to normalize="phys"
 		else: raise ValueError("Unrecognized fourier unit '%s'" % str(norm))
+	# Shift the input instead of the output, since the output may already contain
+	# something that op should combine with, and that shouldn't be shifted.
+	if np.any(off != 0):
+		ioff  = off*fimap.shape[-2:]/np.array(oshape[-2:],float) # in input units
+		fimap = samewcs(enfft.shift(fimap, ioff, axes=(-2,-1), nofft=True), fimap)
 	# copy over all 4 quadrants. This would have been a single operation if the
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
@@ -3196,10 +3201,6 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 	transfer(fomap[...,:hny,       onx:       ],fimap[...,:hny,       inx:       ], norm, op)
 	transfer(fomap[...,ony:,       :hnx       ],fimap[...,iny:,       :hnx       ], norm, op)
 	transfer(fomap[...,ony:,       onx:       ],fimap[...,iny:,       inx:       ], norm, op)
-	if np.any(off != 0):
-		# It's fastest to do this here when downsampling, but when upsampling
-		# it's faster to do so in the fimap. And for a mix it's bad to do it both places.
-		fomap[:] = enfft.shift(fomap, off, axes=(-2,-1), nofft=True)
 	return fomap
 
 def spin_helper(spin, n):
-- 
2.43.0


From cd941810ac661622fef0c60df81701f5c511332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 112/121] fix: flat-sky WaveletTransform used phase-shifted
 multipoles in its filters

---
 pixell/wavelets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..565360f 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -385,7 +385,9 @@ class WaveletTransform:
 		"""Get the multipole indices for wavelet scale i. This will be an enmap
 		in if the uht is flat, otherwise it's a 1d array"""
 		if self.uht.mode == "flat":
-			return enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=True)
+			# No phase shift here. These are the multipoles themselves, not the transform of a map
+			ls = enmap.resample_fft(self.uht.l, self.geometries[i][0], norm=None, corner=False)
+			return enmap.ndmap(ls, self.geometries[i][1])
 		else:
 			return self.uht.l
 	def get_variance_transform(self):
-- 
2.43.0


From 1ca510d43997a394fee0aed071b4e2d79136e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 113/121] fix: WaveletTransform.wcs returned the shape

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 565360f..3eb98d8 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
-- 
2.43.0


From 54d9415ddda2dc435798ad423adb199457e730ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 114/121] fix: flat-sky WaveletTransform.map2wave ignored the
 value of fill_value

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 3eb98d8..4538eed 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -338,7 +338,7 @@ class WaveletTransform:
 					owave.maps[i] = enmap.ifft(fsmall, normalize=False).real
 				else:
 					owave.maps[i] = enmap.zeros(shape,wcs)
-					if fill_value is not None: owave.maps[i][:] = np.nan
+					if fill_value is not None: owave.maps[i][:] = fill_value
 					
 		else:
 			ainfo = curvedsky.alm_info(lmax=self.basis.lmax)
-- 
2.43.0


From 0fd971bc8748f8994a9058b81afbf39e37d356c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 115/121] fix: the last CosineNeedlet was zero at its peak

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 4538eed..dcdc18b 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -147,7 +147,7 @@ class CosineNeedlet:
 		out = l*0.
 		if i>0:
 			lpeakim1 = self.lpeaks[i-1]
-			sel1 = np.logical_and(l>=lpeakim1,l<lpeaki)
+			sel1 = np.logical_and(l>=lpeakim1,l<=lpeaki)
 			out[sel1] = np.cos(np.pi*(lpeaki-l[sel1])/(lpeaki-lpeakim1)/2.)
 		if i<(self.n-1):
 			lpeakip1 = self.lpeaks[i+1]
-- 
2.43.0


From f7a396188757f6cd8f88c04189a806cd1509de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 116/121] fix: UHT.harm2map_adjoint ignored spin on the curved
 sky

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0


From 8c0b402071ba2011af9779eb695664f5b26974b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 117/121] fix: harm2profile_flat_2d did not return the radii

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 72602eb..2f961e8 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -252,7 +252,7 @@ def harm2profile_flat_2d(harm, r=None):
 	cpos = bmap.pix2sky(cpix)
 	bmap = enmap.shift(bmap, cpix, keepwcs=True)
 	wbr, wr = bmap.rbin(center=cpos)
-	if r is None: return wbr, r
+	if r is None: return wbr, wr
 	else:         return utils.interp(r, wr, wbr, right=0)
 
 def beam2res(br, r):
-- 
2.43.0


From 7add1ed89c0419aea9b24c0e0a325a733d9ea178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:51 +0000
Subject: [PATCH 118/121] fix: UHT chose the flat sky for maps whose edges are
 beyond the poles

---
 pixell/uharm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 2f961e8..7cfa546 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -271,7 +271,8 @@ def res2lmax(res):
 
 def estimate_distortion(shape, wcs):
 	"""Get the maximum distortion in the map, assuming a cylindrical projection"""
-	dec1, dec2 = enmap.corners(shape, wcs)[:,0]
+	# The corners of the outermost pixels can be beyond the poles
+	dec1, dec2 = np.clip(enmap.corners(shape, wcs)[:,0], -np.pi/2, np.pi/2)
 	rmin = min(np.cos(dec1),np.cos(dec2))
 	rmax = 1 if not dec1*dec2 > 0 else max(np.cos(dec1),np.cos(dec2))
 	return rmax/rmin-1
-- 
2.43.0


From f56e0f27ea1266f00c861bb6c930c163a1dbf9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:04 +0000
Subject: [PATCH 119/121] fix: NmatWavelet used multimap without importing it

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 4a0c9cf..97cb1fa 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -114,7 +114,7 @@ print("%-15s %8.3f %8.3f %8.3f" % ("lowcorr full emp", flux, dflux, flux/dflux))
 
 import numpy as np, time
 from scipy import ndimage
-from . import enmap, utils, uharm, wavelets, bunch
+from . import enmap, utils, uharm, wavelets, bunch, multimap
 
 # TODO: Figure out the proper way to handle fourier-space
 # linear operators. Currently I have a mess of map2harm, harm2map
-- 
2.43.0


From 48997f7bcef8125f8d4484129edfd0269ac7750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:05 +0000
Subject: [PATCH 120/121] fix: solve_mapsys failed for several components with
 numpy 2

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 97cb1fa..0b62d04 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -1055,7 +1055,7 @@ def solve_mapsys(kappa, rho):
 		dflux = kappa**-0.5
 	else:
 		# Check if this is slow
-		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T).T, rho)
+		flux  = enmap.samewcs(np.linalg.solve(kappa.T, rho.T[...,None])[...,0].T, rho)
 		dflux = enmap.samewcs(np.einsum("aayx->ayx",np.linalg.inv(kappa.T).T)**0.5, kappa)
 	return flux, dflux
 
-- 
2.43.0


From 2f8d758a6eb8d5f3533fd76f16ed518a7ef90108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:45 +0000
Subject: [PATCH 121/121] fix: NmatWavelet lost part of the beam to a phase
 shift when computing kappa

---
 pixell/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 0b62d04..de297b3 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -494,7 +494,8 @@ class NmatWavelet(Nmat):
 		# Then get kappa
 		fkappa = enmap.zeros(self.wiN.pre + map.shape[-2:], map.wcs, utils.complex_dtype(map.dtype))
 		for i in range(self.wt.nlevel):
-			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=True)
+			# The beam stays centered on pixel [0,0], so it should not be realigned with the new pixel corners
+			sub_Q  = self.wt.filters[i]*enmap.resample_fft(beam, self.wt.geometries[i][0], norm=None, corner=False)
 			# Is it right to do this component-wise?
 			sub_Q2 = rop(sub_Q, op=lambda a: a[:,None]*a[None,:])
 			fsmall = sub_Q2*enmap.fft(self.wiN.maps[i], normalize=False)/self.wiN.npixs[i]
-- 
2.43.0

