From 794800d77e736ac02da8a2b4ded5dd6987aa32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 01/53] fix: reject infinite and oversized numbers with
 ValidationError

---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..ca9c695 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -818,7 +818,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -872,7 +872,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -922,7 +922,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From bf8dde0b7585dee8580c811502a4fd930aea9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 02/53] fix: nan is not inside a bounded range

---
 properties/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index ca9c695..55dcde8 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -764,8 +764,8 @@ Bool = Boolean
 def _in_bounds(prop, instance, value):
     """Checks if the value is in the range (min, max)"""
     if (
-            (prop.min is not None and value < prop.min) or
-            (prop.max is not None and value > prop.max)
+            (prop.min is not None and not value >= prop.min) or
+            (prop.max is not None and not value <= prop.max)
     ):
         prop.error(instance, value, extra='Not within allowed range.')
 
-- 
2.43.0


From 90e78b18628e0d06a1ed62af2fadcdcff3d53669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 03/53] fix: inf and nan values of Float and Complex equal
 themselves

---
 properties/basic.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 55dcde8..39034cf 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -770,6 +770,15 @@ def _in_bounds(prop, instance, value):
         prop.error(instance, value, extra='Not within allowed range.')
 
 
+def _floats_equal(value_a, value_b):
+    """Checks if floats are equal within tolerance, including inf and nan"""
+    return (
+        abs(value_a - value_b) <= TOL or
+        value_a == value_b or
+        (value_a != value_a and value_b != value_b)                            #pylint: disable=comparison-with-itself
+    )
+
+
 class Integer(Boolean):
     """Property for integer values
 
@@ -879,7 +888,7 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return _floats_equal(value_a, value_b)
         except TypeError:
             return False
 
@@ -928,8 +937,8 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal = _floats_equal(value_a.real, value_b.real)
+            imag_equal = _floats_equal(value_a.imag, value_b.imag)
             return real_equal and imag_equal
         except (TypeError, AttributeError):
             return False
-- 
2.43.0


From b04c0fb5a1b257210a88ef75c6cc40c30dd9903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 04/53] fix: hex colors contain nothing but hex digits

---
 properties/basic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 39034cf..4ad19bd 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -9,6 +9,7 @@ import datetime
 import math
 import random
 import re
+import string
 import uuid
 import warnings
 
@@ -1198,19 +1199,18 @@ class Color(Property):
             value = COLORS_NAMED.get(value, value)
             if value.upper() == 'RANDOM':
                 value = random.choice(COLORS_20)
-            value = value.upper().lstrip('#')
+            value = value.lstrip('#')
             if len(value) == 3:
                 value = ''.join(v*2 for v in value)
             if len(value) != 6:
                 self.error(instance, value, extra='Color must be known name '
                            'or a hex with 6 digits. e.g. "#FF0000"')
-            try:
-                value = [
-                    int(value[i:i + 6 // 3], 16) for i in range(0, 6, 6 // 3)
-                ]
-            except ValueError:
+            if not all(char in string.hexdigits for char in value):
                 self.error(instance, value,
                            extra='Hex color must be base 16 (0-F)')
+            value = [
+                int(value[i:i + 6 // 3], 16) for i in range(0, 6, 6 // 3)
+            ]
         if not isinstance(value, (list, tuple)):
             self.error(instance, value,
                        extra='Color must be a list or tuple of length 3')
-- 
2.43.0


From 399674f3151ccb8f2fc9846b1f3975c6271fa568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 05/53] fix: web color name firebrick

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 4ad19bd..25f1e85 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1537,7 +1537,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From c26a102e026d7727152f71b9cf6fc742e00d04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 06/53] fix: URL properties describe themselves

---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From c92ddb210940f65cba2ff1d546c65c5ec5ca5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 07/53] fix: dates before the year 1000 can be read back

---
 properties/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 25f1e85..bcb5667 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1265,7 +1265,8 @@ class DateTime(Property):
 
     @staticmethod
     def to_json(value, **kwargs):
-        return value.strftime('%Y-%m-%dT%H:%M:%SZ')
+        # strftime does not zero-pad years before 1000
+        return '%04d' % value.year + value.strftime('-%m-%dT%H:%M:%SZ')
 
     @staticmethod
     def from_json(value, **kwargs):
-- 
2.43.0


From 2d6e84eac1e3d799929ef3c40029c7fc29ca8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 08/53] fix: restore listeners when the same disabling context
 is entered again while active

---
 properties/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..ed2522b 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -28,6 +28,7 @@ class listeners_disabled(object):                                              #
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
+        self._previous_states = []
 
     @property
     def disable_type(self):
@@ -53,14 +54,14 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        self._previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From 82000d6649434b992113b7c09acc3af19595874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 09/53] fix: keep observing a container after an in-place
 operator was refused or applied to an alias

---
 properties/base/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..f9a655f 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -83,8 +83,8 @@ def properties_mutator(cls, name, ioper=False):
         val = getattr(copy, name)(*args, **kwargs)
         if not ioper:
             setattr(self._instance, self._name, copy)
-        self._instance = None
-        self._name = ''
+            self._instance = None
+            self._name = ''
         return val
 
     wrapped = getattr(cls, name)
-- 
2.43.0


From eed7bb849218574fc49ecdbd170c7cefa47ba7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 10/53] fix: do not store inherited class defaults for
 properties that became dynamic

---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..cbf2c30 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -263,6 +263,8 @@ class PropertyMetaclass(type):
 
         # Set the GettableProperties from defaults - these are only set here
         for key, prop in iteritems(obj._props):
+            if isinstance(prop, basic.DynamicProperty):
+                continue
             if not isinstance(prop, basic.Property):
                 if key in obj._defaults:
                     val = obj._defaults[key]
-- 
2.43.0


From 476a21035904c8a25ebd3136124c3ff77543991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:15 +0000
Subject: [PATCH 11/53] fix: class defaults follow the method resolution order
 with multiple inheritance

---
 properties/base/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index cbf2c30..ea57b5d 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -219,10 +219,14 @@ class PropertyMetaclass(type):
             mcs, name, bases, classdict
         )
 
-        # Update the class defaults to include inherited values
+        # Update the class defaults to include inherited values; only
+        # defaults defined on each class itself are used, to respect the MRO
+        newcls._own_defaults = classdict.get('_defaults', dict())
         _defaults = dict()
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            _defaults.update(parent.__dict__.get(
+                '_own_defaults', parent.__dict__.get('_defaults', dict())
+            ))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From a4b90a1651eecc09b4f6332e52fff2ff494ff744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 12/53] fix: properties and listeners follow the method
 resolution order with multiple inheritance

---
 properties/base/base.py | 49 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index ea57b5d..974171d 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -22,28 +22,41 @@ else:
 GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 
 
+def merge_bases(bases):
+    """Helper function to get the MRO a class with the given bases will have
+
+    This is the C3 linearization; inconsistent bases are left for class
+    creation to refuse.
+    """
+    output = []
+    sequences = [list(base.__mro__) for base in bases] + [list(bases)]
+    while True:
+        sequences = [seq for seq in sequences if seq]
+        tails = [item for seq in sequences for item in seq[1:]]
+        heads = [seq[0] for seq in sequences if seq[0] not in tails]
+        if not heads:
+            return output
+        output.append(heads[0])
+        for seq in sequences:
+            if seq[0] is heads[0]:
+                seq.pop(0)
+
+
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
-    output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
-    for base in reversed(bases):
-        # Only keep the items that are still defined on the bases
-        if base is not object and isinstance(base, PropertyMetaclass):
-            output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
-                all_bases.append(item)
     # Update the items in reverse MRO order; only keep those that are
-    # defined on the bases
-    for base in all_bases:
-        for key, val in iteritems(getattr(base, attr)):
-            if key in base.__dict__ and key in output_keys:
+    # not overridden by anything else on a nearer class
+    for base in reversed(merge_bases(bases)):
+        if base is object:
+            continue
+        items = getattr(base, attr) if isinstance(base, PropertyMetaclass) \
+            else {}
+        for key in base.__dict__:
+            if key in output and key not in items:
+                output.pop(key)
+        for key, val in iteritems(items):
+            if key in base.__dict__:
                 output.update({key: val})
     # Remove all items that were overridden by this class; this is
     # potentially a superset of the items added back in the next step.
-- 
2.43.0


From 0404b3cfa4f0b8df80219b934f2e6c32b111a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 13/53] fix: do not store deserialized values of dynamic
 properties

---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 974171d..fd6defd 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -601,6 +601,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 for key, val in iteritems(mutable):
                     setattr(instance, key, val)
         for key, val in iteritems(immutable):
+            if isinstance(output_cls._props[key], basic.DynamicProperty):
+                continue
             valid_val = output_cls._props[key].validate(instance, val)
             instance._backend[key] = valid_val
         if assert_valid and not instance.validate():
-- 
2.43.0


From f41445e8c55790c39a472e6fdff43194bd4221bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 14/53] fix: Boolean stores numpy booleans as bool so they can
 be written as JSON

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index bcb5667..a2d8b50 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -736,7 +736,7 @@ class Boolean(Property):
             value = bool(value)
         if not isinstance(value, BOOLEAN_TYPES):
             self.error(instance, value)
-        return value
+        return bool(value)
 
     def equal(self, value_a, value_b):
         return value_a is value_b
-- 
2.43.0


From ce890ad0b84cbc96b868240cc1b90b3c2d7f921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 15/53] fix: Integer does not read fractions and infinity from
 JSON as other integers

---
 properties/basic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index a2d8b50..397a7a7 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -850,7 +850,18 @@ class Integer(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return int(value)
+        try:
+            intval = int(value)
+        except OverflowError:
+            intval = None
+        if intval is None or (
+                not isinstance(value, string_types) and
+                abs(value - intval) > TOL
+        ):
+            raise ValueError(
+                'Could not load integer from JSON: {}'.format(value)
+            )
+        return intval
 
 
 class Float(Integer):
-- 
2.43.0


From 2195013bcb801e6c34b78cb0325e0746c1026465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 16/53] fix: Union with strict_instances does not accept
 incomplete instances

---
 properties/base/union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1c800c3..c11651e 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -249,6 +249,9 @@ class Union(basic.Property):
                 return out_val
             except GENERIC_ERRORS:
                 continue
+        if self.strict_instances:
+            # The input must not be coerced to an incomplete instance later
+            self.error(None, value)
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-- 
2.43.0


From 4d6c58fbcc3dfa8e365fce2856a9e6d482a4c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 17/53] fix: equality of objects is symmetric and objects are
 equal to themselves at any depth

---
 properties/base/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index fd6defd..5d29a50 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -656,12 +656,16 @@ def equal(value_a, value_b):
             not isinstance(value_b, HasProperties)
     ):
         return value_a == value_b
-    if getattr(value_a, '_testing_equality', False):
+    if value_a is value_b:
+        return True
+    if (
+            getattr(value_a, '_testing_equality', False) or
+            getattr(value_b, '_testing_equality', False)
+    ):
         return False
     value_a._testing_equality = True                                           #pylint: disable=protected-access
+    value_b._testing_equality = True                                           #pylint: disable=protected-access
     try:
-        if value_a is value_b:
-            return True
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
@@ -679,6 +683,7 @@ def equal(value_a, value_b):
         return True
     finally:
         value_a._testing_equality = False                                      #pylint: disable=protected-access
+        value_b._testing_equality = False                                      #pylint: disable=protected-access
 
 
 def copy(value, **kwargs):
-- 
2.43.0


From b0feebfda96accfe85213c723e1b3ecb2ff19e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 18/53] fix: HasUID instances referred to more than once can be
 deserialized

---
 properties/extras/uid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..447fba3 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -147,7 +147,7 @@ class HasUID(base.HasProperties):
             uid = value
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
-        if uid in cls._INSTANCES:
+        if uid in cls._INSTANCES and cls._INSTANCES[uid] is not registry[uid]:
             raise ValueError('UID already used: {}'.format(uid))
         if uid not in registry:
             raise ValueError('Invalid UID: {}'.format(uid))
-- 
2.43.0


From ebf2b5e6a74331af6debee5038aadc2ed9e4943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 19/53] fix: HasUID releases the previous uid when it is
 changed or deleted

---
 properties/extras/uid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 447fba3..921fd74 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -33,7 +33,7 @@ class HasUID(base.HasProperties):
 
     @handlers.validator('uid')
     def _ensure_unique(self, change):
-        if self.uid == change['value']:
+        if change['value'] is utils.undefined or self.uid == change['value']:
             pass
         elif change['value'] in self._INSTANCES:
             raise utils.ValidationError(
@@ -46,7 +46,10 @@ class HasUID(base.HasProperties):
 
     @handlers.observer('uid')
     def _update_instances(self, change):
-        self._INSTANCES.update({change['value']: self})
+        if self._INSTANCES.get(change['previous']) is self:
+            self._INSTANCES.pop(change['previous'])
+        if change['value'] is not utils.undefined:
+            self._INSTANCES.update({change['value']: self})
 
     @classmethod
     def validate_uid(cls, uid):                                                #pylint: disable=unused-argument
-- 
2.43.0


From 23463dd6702210446d693420b48f6f86a1b41bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 20/53] fix: a HasUID constructor that fails does not keep its
 uid in use

---
 properties/extras/uid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 921fd74..60e77c2 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -28,7 +28,12 @@ class HasUID(base.HasProperties):
     )
 
     def __init__(self, **kwargs):
-        super(HasUID, self).__init__(**kwargs)
+        try:
+            super(HasUID, self).__init__(**kwargs)
+        except Exception:
+            if self._INSTANCES.get(self.uid) is self:
+                self._INSTANCES.pop(self.uid)
+            raise
         self._INSTANCES[self.uid] = self
 
     @handlers.validator('uid')
-- 
2.43.0


From 324c21d5414c6c4c7b3068edf9e2ff41d9dbdc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 21/53] fix: HasUID does not register deserialized instances
 with temporary uids

---
 properties/extras/uid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 60e77c2..fd9d9dd 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -167,6 +167,8 @@ class HasUID(base.HasProperties):
                 input_class = None
             new_cls = cls._deserialize_class(input_class, trusted, strict)
             new_inst = new_cls()
+            if new_cls._INSTANCES.get(new_inst.uid) is new_inst:
+                new_cls._INSTANCES.pop(new_inst.uid)
             registry.update({uid: new_inst})
             super(HasUID, cls).deserialize(
                 value=value,
-- 
2.43.0


From e25d59631c790e4a37805f6a51964f0d05bcfcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 22/53] fix: HasUID.deserialize supports assert_valid and
 releases uids when it fails

---
 properties/extras/uid.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index fd9d9dd..1de7429 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -146,13 +146,34 @@ class HasUID(base.HasProperties):
             input parameters.
         """
         registry = kwargs.pop('registry', None)
-        if registry is None:
-            if not isinstance(value, dict):
-                raise ValueError('HasUID must deserialize from dictionary')
-            registry = value.copy()
-            uid = kwargs.get('root', registry.get('__root__'))
-        else:
-            uid = value
+        if registry is not None:
+            return cls._deserialize_uid(value, registry, trusted, strict,
+                                        **kwargs)
+        if not isinstance(value, dict):
+            raise ValueError('HasUID must deserialize from dictionary')
+        registry = value.copy()
+        uid = kwargs.get('root', registry.get('__root__'))
+        try:
+            instance = cls._deserialize_uid(uid, registry, trusted, strict,
+                                            **kwargs)
+            if assert_valid and not instance.validate():
+                raise utils.ValidationError(
+                    'Deserialized instance is not valid'
+                )
+        except Exception:
+            # Instances created here must not keep their uids in use
+            for key, inst in registry.items():
+                if (
+                        inst is not value.get(key) and
+                        cls._INSTANCES.get(key) is inst
+                ):
+                    cls._INSTANCES.pop(key)
+            raise
+        return instance
+
+    @classmethod
+    def _deserialize_uid(cls, uid, registry, trusted, strict, **kwargs):
+        """Deserialize the instance with the given uid in the registry"""
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
         if uid in cls._INSTANCES and cls._INSTANCES[uid] is not registry[uid]:
-- 
2.43.0


From fa029903e251c280b9fb270ce88522b6fff288d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:27 +0000
Subject: [PATCH 23/53] fix: HasUID classes that cannot be deserialized do not
 prevent other classes in a Union

---
 properties/extras/uid.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 1de7429..b1a6bd6 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -191,14 +191,21 @@ class HasUID(base.HasProperties):
             if new_cls._INSTANCES.get(new_inst.uid) is new_inst:
                 new_cls._INSTANCES.pop(new_inst.uid)
             registry.update({uid: new_inst})
-            super(HasUID, cls).deserialize(
-                value=value,
-                trusted=trusted,
-                strict=strict,
-                registry=registry,
-                _instance=new_inst,
-                **kwargs
-            )
+            try:
+                super(HasUID, cls).deserialize(
+                    value=value,
+                    trusted=trusted,
+                    strict=strict,
+                    registry=registry,
+                    _instance=new_inst,
+                    **kwargs
+                )
+            except Exception:
+                # Another class may still be able to deserialize the value
+                registry.update({uid: value})
+                if cls._INSTANCES.get(uid) is new_inst:
+                    cls._INSTANCES.pop(uid)
+                raise
         cls._INSTANCES[uid] = registry[uid]
         return registry[uid]
 
-- 
2.43.0


From 2775954248f008611609e66f1a4caebdba2811de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:43 +0000
Subject: [PATCH 24/53] fix: methods with one argument can be used as link
 transform

---
 properties/link.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/link.py b/properties/link.py
index 6afaa50..a4f2f0f 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -103,7 +103,10 @@ class directional_link(object):                                                #
             pass
         elif not callable(value):
             raise ValueError('transform must be callable function')
-        elif hasattr(value, '__code__') and value.__code__.co_argcount != 1:
+        elif hasattr(value, '__code__') and (
+                value.__code__.co_argcount -
+                (getattr(value, '__self__', None) is not None)
+        ) != 1:
             raise ValueError('transform must be a function with one argument')
         self._transform = value
 
-- 
2.43.0


From 883accfa708f91f184de3c53fe2905b7854785a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:48 +0000
Subject: [PATCH 25/53] fix: a link that is refused does not leave some of its
 items linked

---
 properties/link.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/properties/link.py b/properties/link.py
index a4f2f0f..e773f95 100644
--- a/properties/link.py
+++ b/properties/link.py
@@ -188,11 +188,18 @@ class link(object):                                                            #
         if kwargs.get('transform', None) is not None:
             raise ValueError('Only directional_links may specify transform')
         self._dlinks = ()
-        for i, item_i in enumerate(items):
-            for j, item_j in enumerate(items):
-                if i == j:
-                    continue
-                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
+        try:
+            for i, item_i in enumerate(items):
+                for j, item_j in enumerate(items):
+                    if i == j:
+                        continue
+                    self._dlinks += (
+                        directional_link(item_i, item_j, **kwargs),
+                    )
+        except Exception:
+            # Links that were already established must not stay enabled
+            self.unlink()
+            raise
 
     @property
     def dlinks(self):
-- 
2.43.0


From 4fd7157dc9c1cae351d4dde0a0b96a2c986aee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 26/53] fix: BaseTask.report_status handles a status without
 progress

---
 properties/extras/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..d4b6fc1 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -83,7 +83,10 @@ class BaseTask(object):
         status = Instance('', TaskStatus).validate(None, status)
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent=(
+                '?' if status.progress is None
+                else int(round(100*status.progress))
+            ),
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From e493a7fa0fa342c4b1188f445c82a919a709655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 27/53] fix: equality ignores Renamed properties, which are
 compared under their new name

---
 properties/base/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 5d29a50..f0ed26e 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -669,6 +669,9 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            # Renamed properties are compared under their new name
+            if isinstance(prop, basic.Renamed):
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From 9a4d88d6908d0aa8f7b2af524312ac51f5a7a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 28/53] fix: values under the old name of a Renamed property
 are serialized and deserialized as those of the new name

---
 properties/base/base.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index f0ed26e..02ece01 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -524,7 +524,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             else:
                 prop_source = self._backend
             data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
+                (key, self._serializing_prop(key).serialize(
+                    getattr(self, key), **kwargs
+                ))
                 for key in prop_source
             )
             json_dict = {k: v for k, v in data if v is not None}
@@ -592,7 +594,9 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            newstate[key] = output_cls._serializing_prop(key).deserialize(
+                val, **kwargs
+            )
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
@@ -609,6 +613,22 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             raise utils.ValidationError('Deserialized instance is not valid')
         return instance
 
+    @classmethod
+    def _serializing_prop(cls, name):
+        """Returns the Property that serializes values of the given name
+
+        Renamed properties use the Property they refer to, unless they
+        define a serializer or deserializer themselves.
+        """
+        prop = cls._props[name]
+        while (
+                isinstance(prop, basic.Renamed) and
+                prop.serializer is None and
+                prop.deserializer is None
+        ):
+            prop = cls._props[prop.new_name]
+        return prop
+
     @classmethod
     def _deserialize_class(cls, input_cls_name, trusted, strict):
         """Returns the HasProperties class to use for deserialization"""
-- 
2.43.0


From 6666b4e0a698d5f65f3204f06851787b96b5885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 29/53] fix: class defaults given under the old name of a
 Renamed property apply to the new name

---
 properties/base/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 02ece01..187fcd4 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -237,9 +237,13 @@ class PropertyMetaclass(type):
         newcls._own_defaults = classdict.get('_defaults', dict())
         _defaults = dict()
         for parent in reversed(newcls.__mro__):
-            _defaults.update(parent.__dict__.get(
+            own_defaults = parent.__dict__.get(
                 '_own_defaults', parent.__dict__.get('_defaults', dict())
-            ))
+            )
+            for key, value in iteritems(own_defaults):
+                while isinstance(newcls._props.get(key), basic.Renamed):
+                    key = newcls._props[key].new_name
+                _defaults[key] = value
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From 4e14f6ad52a75bbd0d0d226bb79e607093a8a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:03 +0000
Subject: [PATCH 30/53] fix: Singleton.deserialize leaves the input dictionary
 unchanged

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 6b58f09811475fa019617fe869e0702ba5cdcb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 31/53] fix: stored singletons of classes without a name
 property can be read

---
 properties/extras/singleton.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..badbe0c 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -84,7 +84,16 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
-        value.update({'name': identifier})
+        output_cls = cls._deserialize_class(
+            input_cls_name=value.get('__class__'),
+            trusted=trusted,
+            strict=strict,
+        )
+        if 'name' in output_cls._props:
+            value.update({'name': identifier})
+        else:
+            value.pop('name', None)
+            kwargs.update({'_instance': output_cls(identifier)})
         newinst = super(Singleton, cls).deserialize(
             value,
             trusted=trusted,
-- 
2.43.0


From 137d5e984cf53b964d829b34ab05ddd56eca8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 32/53] fix: trusted deserialization of a singleton uses the
 registry of its own class

---
 properties/extras/singleton.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index badbe0c..888f507 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -81,8 +81,13 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
-        if identifier in cls._SINGLETONS:
-            return cls._SINGLETONS[identifier]
+        registry = cls._deserialize_class(
+            input_cls_name=value.get('__class__'),
+            trusted=trusted,
+            strict=False,
+        )._SINGLETONS
+        if identifier in registry:
+            return registry[identifier]
         name = value.get('name', None)
         output_cls = cls._deserialize_class(
             input_cls_name=value.get('__class__'),
-- 
2.43.0


From 06442b2be932343b00d15c5fbff476fd364c54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 33/53] fix: failed deserialization of a singleton registers
 nothing and notifies nobody

---
 properties/extras/singleton.py | 35 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 888f507..af5e3f7 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import six
 
 from ..base import HasProperties, PropertyMetaclass
+from ..handlers import listeners_disabled
 
 
 class SingletonMetaclass(PropertyMetaclass):
@@ -94,18 +95,24 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             trusted=trusted,
             strict=strict,
         )
-        if 'name' in output_cls._props:
-            value.update({'name': identifier})
-        else:
-            value.pop('name', None)
-            kwargs.update({'_instance': output_cls(identifier)})
-        newinst = super(Singleton, cls).deserialize(
-            value,
-            trusted=trusted,
-            strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
-        )
-        if name:
-            newinst.name = name
+        try:
+            if 'name' in output_cls._props:
+                value.update({'name': identifier})
+            else:
+                value.pop('name', None)
+                kwargs.update({'_instance': output_cls(identifier)})
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+            if name:
+                with listeners_disabled():
+                    newinst.name = name
+        except Exception:
+            # Only keep singletons that are deserialized successfully
+            registry.pop(identifier, None)
+            raise
         return newinst
-- 
2.43.0


From 8bd5cf9544e53fc64156bc61a012a675341efca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 34/53] fix: a singleton renamed to an empty or zero name keeps
 that name when read

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index af5e3f7..ff07589 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -108,7 +108,7 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
                 assert_valid=assert_valid,
                 **kwargs
             )
-            if name:
+            if name is not None:
                 with listeners_disabled():
                     newinst.name = name
         except Exception:
-- 
2.43.0


From beb4f94f9fa42cb22b7809b52e94a90daf0dbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 35/53] fix: arrays and vectors that cannot be built are
 refused with ValidationError

---
 properties/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..921df8a 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -142,7 +142,10 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (TypeError, ValueError, OverflowError):
+                self.error(instance, value)
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From affae159f4aeb35308a8278386093f2fbe609ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 36/53] fix: arrays without dimensions can be serialized

---
 properties/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index 921df8a..8194a3b 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -233,9 +233,9 @@ class Array(Property):
         nan values are converted to string 'nan', inf values to 'inf'.
         """
         def _recurse_list(val):
-            if val and isinstance(val[0], list):
+            if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return [str(v) if np.isnan(v) or np.isinf(v) else v for v in val]
+            return str(val) if np.isnan(val) or np.isinf(val) else val
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From 8ff0d9d0450e47b8ed28888f96df982c30fea6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 37/53] fix: deserialized arrays keep their values when several
 dtypes are allowed, and vectors read nan and inf

---
 properties/math.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 8194a3b..d9def5b 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -224,7 +224,16 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        array = np.array(value)
+        if array.dtype.kind in 'SU':
+            # nan and inf are written as strings
+            array = value = array.astype(float)
+        for dtype in self.dtype:
+            if np.can_cast(array.dtype, dtype):
+                break
+        else:
+            dtype = self.dtype[0]
+        return self.wrapper(value).astype(dtype)
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From a559bca344b04ba6f0f44862a34521dc7b1efe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 38/53] fix: complex arrays are serialized as JSON

---
 properties/math.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index d9def5b..4bb0a26 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -226,8 +226,11 @@ class Array(Property):
             return None
         array = np.array(value)
         if array.dtype.kind in 'SU':
-            # nan and inf are written as strings
-            array = value = array.astype(float)
+            # Values JSON cannot hold are written as strings
+            try:
+                array = value = array.astype(float)
+            except ValueError:
+                array = value = array.astype(complex)
         for dtype in self.dtype:
             if np.can_cast(array.dtype, dtype):
                 break
@@ -239,12 +242,15 @@ class Array(Property):
     def to_json(value, **kwargs):
         """Convert array to JSON list
 
-        nan values are converted to string 'nan', inf values to 'inf'.
+        nan values are converted to string 'nan', inf values to 'inf',
+        and complex values to strings.
         """
         def _recurse_list(val):
             if isinstance(val, list):
                 return [_recurse_list(v) for v in val]
-            return str(val) if np.isnan(val) or np.isinf(val) else val
+            if isinstance(val, complex) or np.isnan(val) or np.isinf(val):
+                return str(val)
+            return val
         return _recurse_list(value.tolist())
 
     @staticmethod
-- 
2.43.0


From 16dc447fbe2c6a9cae22ffabc6476419c7e7e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 39/53] fix: named directions in lists of vectors leave the
 list unchanged and work in tuples

---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index 4bb0a26..e22a14d 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -463,6 +463,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -533,6 +534,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From 6b6622d16b698802bbf14a306af2c4bda8ac589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 40/53] fix: deleting a file property closes the file only once
 it is deleted and if it can be closed

---
 properties/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 397a7a7..f16db66 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1388,9 +1388,10 @@ class File(Property):
 
         def fdel(self):
             """Set value to utils.undefined on delete"""
-            if self._get(scope.name) is not None:
-                self._get(scope.name).close()
+            value = self._get(scope.name)
             self._set(scope.name, undefined)
+            if hasattr(value, 'close'):
+                value.close()
 
         new_prop = property(fget=prop.fget, fset=prop.fset,
                             fdel=fdel, doc=scope.sphinx())
-- 
2.43.0


From ce115cf738c06812acb95092c8f63ff9b1ffeb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 41/53] fix: file names that cannot be opened are refused with
 ValidationError

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index f16db66..dbf8fe4 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1405,7 +1405,7 @@ class File(Property):
         if isinstance(value, string_types) and self.mode is not None:
             try:
                 value = open(value, self.mode)
-            except (IOError, TypeError):
+            except (IOError, TypeError, ValueError):
                 self.error(instance, value,
                            extra='Cannot open file: {}'.format(value))
         if not all([hasattr(value, attr) for attr in ('read', 'seek')]):
-- 
2.43.0


From 1a254e474f66e0d91115a2bced93a703832fb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 42/53] fix: images are serialized completely after they have
 been read

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From bac1472f3bd6571518aa7823935aafb57df34404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 43/53] fix: empty files are refused as images with
 ValidationError

---
 properties/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..9c04bc0 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -65,7 +65,7 @@ class ImagePNG(File):
             value = super(ImagePNG, self).validate(instance, value)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From 43e2b0a4f2accd413954e1a7918d8cdd9fef4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 44/53] fix: images are recognised whatever has been read of
 their file

---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index 9c04bc0..e37dac3 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -63,6 +63,7 @@ class ImagePNG(File):
             pass
         else:
             value = super(ImagePNG, self).validate(instance, value)
+            value.seek(0)
             try:
                 png.Reader(value).validate_signature()
             except (png.FormatError, EOFError):
-- 
2.43.0


From 3a51add651f0288c3c5ce94ea6350d87770933b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 45/53] fix: Union default may be set to undefined even if a
 Union prop has one

---
 properties/base/union.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index c11651e..936c614 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -124,14 +124,12 @@ class Union(basic.Property):
     @property
     def default(self):
         """Default value of the property"""
-        prop_def = getattr(self, '_default', utils.undefined)
+        if hasattr(self, '_default'):
+            return self._default
         for prop in self.props:
-            if prop.default is utils.undefined:
-                continue
-            if prop_def is utils.undefined:
-                prop_def = prop.default
-                break
-        return prop_def
+            if prop.default is not utils.undefined:
+                return prop.default
+        return utils.undefined
 
     @default.setter
     def default(self, value):
-- 
2.43.0


From f15dbfbf639ef3e4b00299731067f4d67dac5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 46/53] fix: numbers out of tolerance are reported once, with
 the correct explanation

---
 properties/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index dbf8fe4..f7fe33f 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -828,6 +828,8 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
+        except ValidationError:
+            raise
         except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
@@ -893,6 +895,8 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
+        except ValidationError:
+            raise
         except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
@@ -943,6 +947,8 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
+        except ValidationError:
+            raise
         except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
-- 
2.43.0


From 85e6b9bb8706c636f7d9c77e576dc71ef7e8e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 47/53] fix: the error hook is called once if a contained
 property is invalid

---
 properties/base/containers.py |  9 ++++++---
 properties/base/union.py      |  3 ++-
 properties/utils.py           | 18 ++++++++++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index f9a655f..915e4e0 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -275,7 +275,8 @@ class Tuple(basic.Property):
         out = []
         for val in value:
             try:
-                out += [self.prop.validate(instance, val)]
+                with utils.errors_not_reported(instance):
+                    out += [self.prop.validate(instance, val)]
             except ValueError:
                 self.error(instance, val, extra='This item is invalid.')
         return out_class(out)
@@ -583,12 +584,14 @@ class Dictionary(basic.Property):
         for key, val in iteritems(value):
             if self.key_prop:
                 try:
-                    key = self.key_prop.validate(instance, key)
+                    with utils.errors_not_reported(instance):
+                        key = self.key_prop.validate(instance, key)
                 except ValueError:
                     self.error(instance, key, extra='This key is invalid.')
             if self.value_prop:
                 try:
-                    val = self.value_prop.validate(instance, val)
+                    with utils.errors_not_reported(instance):
+                        val = self.value_prop.validate(instance, val)
                 except ValueError:
                     self.error(instance, val, extra='This value is invalid.')
             out[key] = val
diff --git a/properties/base/union.py b/properties/base/union.py
index 936c614..1a6f23a 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -168,7 +168,8 @@ class Union(basic.Property):
         error_messages = []
         for prop in self.props:
             try:
-                return getattr(prop, method_name)(instance, value)
+                with utils.errors_not_reported(instance):
+                    return getattr(prop, method_name)(instance, value)
             except GENERIC_ERRORS as err:
                 if hasattr(err, 'error_tuples'):
                     error_messages += [
diff --git a/properties/utils.py b/properties/utils.py
index bcb688d..c475d43 100644
--- a/properties/utils.py
+++ b/properties/utils.py
@@ -5,6 +5,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 from collections import namedtuple
+from contextlib import contextmanager
 from functools import wraps
 from warnings import warn
 
@@ -165,6 +166,23 @@ class ValidationError(ValueError):
             instance._error_hook(self.error_tuples)                           #pylint: disable=protected-access
 
 
+@contextmanager
+def errors_not_reported(instance):
+    """Context where errors are not passed to the instance _error_hook
+
+    Errors of contained properties are caught by the containing property;
+    only the error of the containing property must be reported.
+    """
+    if getattr(instance, '_getting_validated', True):
+        yield
+        return
+    instance._getting_validated = True                                         #pylint: disable=protected-access
+    try:
+        yield
+    finally:
+        instance._getting_validated = False                                    #pylint: disable=protected-access
+
+
 class Sentinel(object):                                                        #pylint: disable=too-few-public-methods
     """Basic object with name and doc for specifying singletons
 
-- 
2.43.0


From 73fbc14a7dae72fdb6d93d27dbf320ba1a968638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 48/53] fix: stop_recursion_with compares held objects by
 identity

---
 properties/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properties/utils.py b/properties/utils.py
index c475d43..45a1ea9 100644
--- a/properties/utils.py
+++ b/properties/utils.py
@@ -103,7 +103,7 @@ class stop_recursion_with(object):                                             #
             This function holds the source object in the decorator's
             held_objects while the function is running.
             """
-            if self in decorator.held_objects:
+            if any(obj is self for obj in decorator.held_objects):
                 if callable(decorator.backup):
                     output = decorator.backup(self, *args, **kwargs)
                 else:
@@ -115,7 +115,9 @@ class stop_recursion_with(object):                                             #
                 decorator.held_objects.append(self)
                 output = func(self, *args, **kwargs)
             finally:
-                decorator.held_objects.remove(self)
+                decorator.held_objects = [
+                    obj for obj in decorator.held_objects if obj is not self
+                ]
             return output
 
         return run_once
-- 
2.43.0


From 5e65b01bfc9834bf934ad35061e36bf8c8aeff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 49/53] fix: dynamic properties are serialized by the
 decorating property

---
 properties/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index f7fe33f..393b112 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -515,6 +515,10 @@ class DynamicProperty(GettableProperty):                                       #
         """
         return self.prop.deserializer
 
+    def serialize(self, value, **kwargs):
+        """Serialize using prop serialization"""
+        return self.prop.serialize(value, **kwargs)
+
     def validate(self, instance, value):
         """Validate using prop validation"""
         return self.prop.validate(instance, value)
-- 
2.43.0


From 56bff28baf34fbc6b74216498f23d0aa6d031385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 50/53] fix: accept None items of containers whose property
 accepts None

---
 properties/base/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 915e4e0..095a50a 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -301,7 +301,8 @@ class Tuple(basic.Property):
                 extra='(Length is {})'.format(len(value)),
             )
         for val in value:
-            if not self.prop.assert_valid(instance, val):
+            # None would be taken for the value of the whole property
+            if val is not None and not self.prop.assert_valid(instance, val):
                 return False
         return True
 
@@ -611,9 +612,10 @@ class Dictionary(basic.Property):
             return True
         if self.key_prop or self.value_prop:
             for key, val in iteritems(value):
-                if self.key_prop:
+                # None would be taken for the value of the whole property
+                if self.key_prop and key is not None:
                     self.key_prop.assert_valid(instance, key)
-                if self.value_prop:
+                if self.value_prop and val is not None:
                     self.value_prop.assert_valid(instance, val)
         return True
 
-- 
2.43.0


From 626b09f7295ff04653ae59b87b67586340098215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 51/53] fix: accept images from file-like objects that cannot
 be closed

---
 properties/images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e37dac3..04f8dc8 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -79,7 +79,8 @@ class ImagePNG(File):
             fid = value
             fid.seek(0)
             output.write(fid.read())
-            fid.close()
+            if hasattr(fid, 'close'):
+                fid.close()
         output.seek(0)
         return output
 
-- 
2.43.0


From 5f46829ce4d659d6edfbc1c1ff8e1f808029ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 52/53] fix: values that are arrays of any shape can be
 compared

---
 properties/basic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 393b112..37a7103 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -270,7 +270,14 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
+        if (
+                hasattr(value_a, 'shape') and hasattr(value_b, 'shape') and
+                value_a.shape != value_b.shape
+        ):
+            return False
         equal = value_a == value_b
+        if hasattr(equal, 'all'):
+            return bool(equal.all())
         if hasattr(equal, '__iter__'):
             return all(equal)
         return equal
-- 
2.43.0


From df6eac0d073987be7dc03fabf710bfef63784d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 53/53] fix: instances of other classes are compared as any
 other value

---
 properties/base/instance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/base/instance.py b/properties/base/instance.py
index 2b622fc..d44e20e 100644
--- a/properties/base/instance.py
+++ b/properties/base/instance.py
@@ -155,7 +155,9 @@ class Instance(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return equal(value_a, value_b)
+        if isinstance(value_a, HasProperties):
+            return equal(value_a, value_b)
+        return super(Instance, self).equal(value_a, value_b)
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0

