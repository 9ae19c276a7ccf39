From af5663f10321f7015f4a2c99a1cbac01d0117f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 01/82] fix: find Hashable where current Python versions keep
 it

collections.Hashable is gone since Python 3.10, so no Event could be created.
---
 gsapi/gspattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..dc97331 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -8,11 +8,15 @@ and Pattern, which are the main holders of musical symbolic information.
 
 from __future__ import absolute_import, division, print_function
 
-import collections
 import copy
 import logging
 import math
 
+try:
+    from collections.abc import Hashable
+except ImportError:  # python 2
+    from collections import Hashable
+
 from . import gsdefs, gsutil
 
 # logger for pattern related operations
@@ -58,7 +62,7 @@ class Event(object):
         if isinstance(tag, list):
             gspatternLog.error("'tag' can't be a list, converting to tuple.")
             self.tag = tuple(tag)
-        elif not isinstance(tag, collections.Hashable):
+        elif not isinstance(tag, Hashable):
             gspatternLog.error("'tag' has to be hashable, trying conversion to tuple.")
             self.tag = (tag,)
         else:
-- 
2.43.0


From bcb2e5e5c725ed44205cd3e4f614b6b8765e3ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 02/82] fix: copyWithoutEvents copies key and resolution too

It is documented to copy all fields but events; slices and selections lost the key.
---
 gsapi/gspattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index dc97331..cbac87d 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -416,8 +416,10 @@ class Pattern(object):
         p.duration = self.duration
         p.bpm = self.bpm
         p.timeSignature = self.timeSignature
+        p.key = self.key
         p.originFilePath = self.originFilePath
         p.name = self.name
+        p.resolution = self.resolution
         return p
 
     def fillWithPreviousEvent(self):
-- 
2.43.0


From 455497e39f8031e1bb7221812668128ff51ea0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 03/82] fix: unnamed patterns can be split

None + str raised TypeError.
---
 gsapi/gspattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index cbac87d..65d8f12 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1080,8 +1080,9 @@ class Pattern(object):
                 patterns[numPattern] = patternToSlice.copyWithoutEvents()
                 patterns[numPattern].startTime = p * desiredLength
                 patterns[numPattern].duration = desiredLength
-                patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                if patternToSlice.name is not None:
+                    patterns[
+                        numPattern].name = patternToSlice.name + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-- 
2.43.0


From 739a5b117c3013b9b685cba92b432e8da42e6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 04/82] fix: per-tag silences treat each tag as a voice of its
 own

The inexact search put notes whose tag contains another tag ('LowConga', 'Conga')
into both voices, so they came out twice, and failed on tuple next to string tags.
---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 65d8f12..ea64e2b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -494,7 +494,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From e901bc16977d895e089e71ca0ba5540e73565b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 05/82] fix: legato treats each tag as a voice of its own

The inexact search stretched notes only up to onsets of other voices whose tag
contains their tag.
---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ea64e2b..ac5794c 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -392,7 +392,7 @@ class Pattern(object):
                 voice = self.getPatternWithPitch(p)
                 _perVoiceLegato(voice)
         for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
+            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=True, makeCopy=False)
             _perVoiceLegato(voice)
 
     def copy(self):
-- 
2.43.0


From 47e8ff71de91d996c3745e932833e60d052d9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 06/82] fix: removeOverlapped keeps one of several notes
 starting together

A note superseded by one with the same start was still added, cropped, when a
third note of the voice overlapped it later.
---
 gsapi/gspattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index ac5794c..4bb8c1b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -967,6 +967,8 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            # ee takes the place of e
+                            break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 8e79321e2cfde53ecfe3cb613e4ec3e71b55d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 07/82] fix: alignOnGrid repeats events with a repeatible tag

The tag was compared with the whole list, so silences were never cut in steps.
---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 4bb8c1b..19805e1 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -348,7 +348,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if any(e.isTag(t) for t in repeatibleTags):
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From 4f65006276243b20ec0a676ed8b3323377f9003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 08/82] fix: lastNoteOff is the latest end of all events

It was the end of the event starting last, so a long earlier event was left out
of the pattern's duration.
---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 19805e1..2e82808 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -684,7 +684,7 @@ class Pattern(object):
         """
         if len(self.events):
             self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max(e.endTime() for e in self.events)
         else:
             return None
 
-- 
2.43.0


From e392cc9c6b40ecd18e8d1bb1925a063db338e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 09/82] fix: removeByTags removes every event with one of the
 tags

Removing from the list being iterated skipped the event after each removed one.
---
 gsapi/gspattern.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 2e82808..4aa288a 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -916,9 +916,8 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
-            if e.hasOneOfTags(tuple(tags)):
-                self.removeEvent(e)
+        tags = tuple(tags)
+        self.events = [e for e in self.events if not e.hasOneOfTags(tags)]
 
     def removeEvent(self, event):
         """remove given event
-- 
2.43.0


From 38d83726819070704585f667dd638f611dc3fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 10/82] fix: removeEvent removes all equal events and no other

Deleting by ascending index removed the wrong events, or raised IndexError, when
several were equal.
---
 gsapi/gspattern.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 4aa288a..5337f0c 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -924,15 +924,7 @@ class Pattern(object):
         Args:
             event: the Event to be added
         """
-        idxToRemove = []
-        idx = 0
-        for e in self.events:
-            if event == e:
-                idxToRemove += [idx]
-            idx += 1
-
-        for i in idxToRemove:
-            del self.events[i]
+        self.events = [e for e in self.events if e != event]
 
     def removeOverlapped(self, usePitchValues=False):
         """
-- 
2.43.0


From ceb8009c9c56ed41f98189dfa79444b35863ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 11/82] fix: allTagsAreEqualWith and getIdenticalEvents return
 their result

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 5337f0c..b03d060 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -148,7 +148,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -665,6 +665,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From db8dd3fff08f2fa22afa249ffd035bb513c5a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 12/82] fix: fillWithPreviousEvent works on unsorted patterns

Durations became negative when events were not stored in time order.
---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index b03d060..87b2d7b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -432,6 +432,7 @@ class Pattern(object):
         for e in self.events:
             if e.startTime not in onsets:
                 onsets.append(e.startTime)
+        onsets.sort()
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From 6d34e9a0d09fa2a4abf03f82661f2b1f955331ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 13/82] fix: transposed events get a hashable tag

A list as tag broke every later operation that collects tags.
---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 87b2d7b..bad9c3f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1177,7 +1177,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From f7066dde5b53310abdea1699d1d356cbf27a5a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 14/82] fix: tags are compared as wholes, not by their
 characters

---
 gsapi/gspattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index bad9c3f..1a9ca61 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -114,8 +114,10 @@ class Event(object):
         -------
             bool: True if at least one tag is equal.
         """
+        if not isinstance(tags, (list, tuple, set, frozenset)):
+            tags = (tags,)
         for t in tags:
-            if (t == self.tag) or (t in self.tag):
+            if (t == self.tag) or (isinstance(self.tag, tuple) and t in self.tag):
                 return True
         return False
 
@@ -918,7 +920,6 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        tags = tuple(tags)
         self.events = [e for e in self.events if not e.hasOneOfTags(tags)]
 
     def removeEvent(self, event):
-- 
2.43.0


From 28dd9ed53239ecb6b62f0dc5a7fefe823c839e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 15/82] fix: searching by tag works for tags of any hashable
 type

---
 gsapi/gspattern.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 1a9ca61..42a1072 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -780,8 +780,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -790,7 +789,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                    isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
@@ -842,8 +841,7 @@ class Pattern(object):
             if exactSearch:
                 gspatternLog.error(
                     "cannot search exactly with a list of elements")
-            boolFunction = lambda inTags: len(
-                inTags) > 0 and inTags in tagToLookFor
+            boolFunction = lambda inTags: inTags in tagToLookFor
         elif callable(tagToLookFor):
             boolFunction = tagToLookFor
         else:
@@ -852,7 +850,7 @@ class Pattern(object):
                 boolFunction = lambda inTags: inTags == tagToLookFor
             else:
                 boolFunction = lambda inTags: (inTags == tagToLookFor) or (
-                len(inTags) > 0 and tagToLookFor in inTags)
+                    isinstance(inTags, tuple) and tagToLookFor in inTags)
 
         res = self.copyWithoutEvents()
         for e in self.events:
-- 
2.43.0


From ce5cf89e9ccc9c4db3f2c3532a8b7e065f407aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 16/82] fix: MIDI files can be read and written under Python 3

---
 gsapi/midiio.py | 61 +++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..7d8a2ee 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -17,6 +17,9 @@ DEFAULT_MIDI_HEADER_SIZE = 14
 
 if sys.version_info < (3,):
 
+    def b(x):
+        return x
+
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
             midifile = open(midifile, 'wb')
@@ -32,6 +35,8 @@ if sys.version_info < (3,):
 else:
     import codecs
 
+    xrange = range
+
     def b(x):
         return codecs.latin_1_encode(x)[0]
 
@@ -58,8 +63,8 @@ class FileReader(object):
     def parse_file_header(self, midifile):
         # First four bytes are MIDI header
         magic = midifile.read(4)
-        if magic != 'MThd':
-            raise(TypeError, "Bad header in MIDI file.")
+        if magic != b('MThd'):
+            raise TypeError("Bad header in MIDI file.")
         # next four bytes are header size
         # next two bytes specify the format version
         # next two bytes specify the number of tracks
@@ -79,8 +84,8 @@ class FileReader(object):
     def parse_track_header(self, midifile):
         # First four bytes are Track header
         magic = midifile.read(4)
-        if magic != 'MTrk':
-            raise(TypeError, "Bad track header in MIDI file: " + magic)
+        if magic != b('MTrk'):
+            raise TypeError("Bad track header in MIDI file: " + repr(magic))
         # next four bytes are track size
         trksz = unpack(">L", midifile.read(4))[0]
         return trksz
@@ -88,7 +93,7 @@ class FileReader(object):
     def parse_track(self, midifile, track):
         self.RunningStatus = None
         trksz = self.parse_track_header(midifile)
-        trackdata = iter(midifile.read(trksz))
+        trackdata = iter(bytearray(midifile.read(trksz)))
         while True:
             try:
                 event = self.parse_midi_event(trackdata)
@@ -100,23 +105,23 @@ class FileReader(object):
         # first datum is varlen representing delta-time
         tick = read_varlen(trackdata)
         # next byte is status message
-        stsmsg = ord(trackdata.next())
+        stsmsg = next(trackdata)
         # is the event a MetaEvent?
         if MetaEvent.is_event(stsmsg):
-            cmd = ord(trackdata.next())
+            cmd = next(trackdata)
             if cmd not in EventRegistry.MetaEvents:
-                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd), Warning)
+                midiioLog.warning("Unknown Meta MIDI Event: " + repr(cmd))
                 cls = UnknownMetaEvent
             else:
                 cls = EventRegistry.MetaEvents[cmd]
             datalen = read_varlen(trackdata)
-            data = [ord(trackdata.next()) for x in range(datalen)]
+            data = [next(trackdata) for x in range(datalen)]
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
             data = []
             while True:
-                datum = ord(trackdata.next())
+                datum = next(trackdata)
                 if datum == 0xF7:
                     break
                 data.append(datum)
@@ -131,13 +136,13 @@ class FileReader(object):
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
                 data.append(stsmsg)
-                data += [ord(trackdata.next()) for x in range(cls.length - 1)]
+                data += [next(trackdata) for x in range(cls.length - 1)]
                 return cls(tick=tick, channel=channel, data=data)
             else:
                 self.RunningStatus = stsmsg
                 cls = EventRegistry.Events[key]
                 channel = self.RunningStatus & 0x0F
-                data = [ord(trackdata.next()) for x in range(cls.length)]
+                data = [next(trackdata) for x in range(cls.length)]
                 return cls(tick=tick, channel=channel, data=data)
         # raise(Warning, "Unknown MIDI Event: " + repr(stsmsg))
 
@@ -154,18 +159,18 @@ class FileWriter(object):
                         pattern.frmt,
                         len(pattern),
                         pattern.resolution)
-        midifile.write('MThd%s' % packdata)
+        midifile.write(b('MThd') + packdata)
 
     def write_track(self, midifile, track):
         buf = ''
         self.RunningStatus = None
         for event in track:
             buf += self.encode_midi_event(event)
-        buf = self.encode_track_header(len(buf)) + buf
+        buf = self.encode_track_header(len(buf)) + b(buf)
         midifile.write(buf)
 
     def encode_track_header(self, trklen):
-        return 'MTrk%s' % pack(">L", trklen)
+        return b('MTrk') + pack(">L", trklen)
 
     def encode_midi_event(self, event):
         ret = ''
@@ -189,7 +194,7 @@ class FileWriter(object):
                 ret += chr(event.statusmsg | event.channel)
             ret += str.join('', map(chr, event.data))
         else:
-            raise(ValueError, "Unknown MIDI Event: " + str(event))
+            raise ValueError("Unknown MIDI Event: " + str(event))
         return ret
 
 
@@ -292,23 +297,29 @@ class EventRegistry(object):
                     "Event %s already registered" % event.name
                 cls.MetaEvents[event.metacommand] = event
         else:
-            raise(ValueError, "Unknown bases class in event type: " + event.name)
+            raise ValueError("Unknown bases class in event type: " + event.name)
 
     register_event = classmethod(register_event)
 
 
-class AbstractEvent(object):
+class EventMeta(type):
+    def __init__(cls, name, bases, dict):
+        super(EventMeta, cls).__init__(name, bases, dict)
+        if name not in ['EventBase', 'AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
+                        'MetaEventWithText']:
+            EventRegistry.register_event(cls, bases)
+
+
+# calling the metaclass works with the class syntax of both Python 2 and 3
+EventBase = EventMeta(str('EventBase'), (object,), {})
+
+
+class AbstractEvent(EventBase):
     # __slots__ = ['tick', 'data']
     name = "Generic MIDI Event"
     length = 0
     statusmsg = 0x0
 
-    class __metaclass__(type):
-        def __init__(cls, name, bases, dict):
-            if name not in ['AbstractEvent', 'Event', 'MetaEvent', 'NoteEvent',
-                            'MetaEventWithText']:
-                EventRegistry.register_event(cls, bases)
-
     def __init__(self, **kw):
         if type(self.length) == int:
             defdata = [0] * self.length
@@ -734,7 +745,7 @@ def read_varlen(data):
     NEXTBYTE = 1
     value = 0
     while NEXTBYTE:
-        char = ord(data.next())
+        char = next(data)
         # is the hi-bit set?
         if not (char & 0x80):
             # no next BYTE
-- 
2.43.0


From d309cf823d7155f144ce97249bbfb9357550098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 17/82] fix: longer MIDI headers are skipped completely

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 7d8a2ee..ea1332f 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -13,7 +13,7 @@ from struct import pack, unpack
 midiioLog = logging.getLogger("gsapi.midiio")
 midiioLog.setLevel(level=logging.WARNING)
 
-DEFAULT_MIDI_HEADER_SIZE = 14
+DEFAULT_MIDI_HEADER_SIZE = 6
 
 if sys.version_info < (3,):
 
-- 
2.43.0


From 445aed28e0679f62fadbf98aaa9ca633ea8de8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 18/82] fix: channel after touch has a single data byte

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index ea1332f..dc8ce60 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -505,10 +505,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 9dd2e6bf19689bff93072ba7999927468fa3d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 19/82] fix: the text of meta events is written to the file

---
 gsapi/midiio.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index dc8ce60..0d50586 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -548,10 +548,13 @@ class SequenceNumberMetaEvent(MetaEvent):
 
 
 class MetaEventWithText(MetaEvent):
-    def __init__(self, **kw):
-        super(MetaEventWithText, self).__init__(**kw)
-        if 'text' not in kw:
-            self.text = ''.join(chr(datum) for datum in self.data)
+    def get_text(self):
+        return ''.join(chr(datum) for datum in self.data)
+
+    def set_text(self, val):
+        self.data = [ord(c) if ord(c) < 256 else ord('?') for c in val]
+
+    text = property(get_text, set_text)
 
     def __repr__(self):
         return self.__baserepr__(['text'])
-- 
2.43.0


From 6f90f103debef3a64277f00f578ced8409720037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 20/82] fix: meta and sysex events cancel running status

---
 gsapi/midiio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 0d50586..90014ca 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -180,8 +180,11 @@ class FileWriter(object):
             ret += chr(event.statusmsg) + chr(event.metacommand)
             ret += write_varlen(len(event.data))
             ret += str.join('', map(chr, event.data))
+            # meta and sysex events cancel any running status
+            self.RunningStatus = None
         # is this event a Sysex Event?
         elif isinstance(event, SysexEvent):
+            self.RunningStatus = None
             ret += chr(0xF0)
             ret += str.join('', map(chr, event.data))
             ret += chr(0xF7)
-- 
2.43.0


From 8d39a58bdb574fb4454b50a4b9b9f71492176355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 21/82] fix: sysex events carry their length

---
 gsapi/midiio.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 90014ca..55b0e43 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -119,12 +119,10 @@ class FileReader(object):
             return cls(tick=tick, data=data, metacommand=cmd)
         # is this event a Sysex Event?
         elif SysexEvent.is_event(stsmsg):
-            data = []
-            while True:
-                datum = next(trackdata)
-                if datum == 0xF7:
-                    break
-                data.append(datum)
+            datalen = read_varlen(trackdata)
+            data = [next(trackdata) for x in range(datalen)]
+            if data and data[-1] == 0xF7:
+                data.pop()
             return SysexEvent(tick=tick, data=data)
         # not a Meta MIDI event or a Sysex event, must be a general message
         else:
@@ -186,6 +184,8 @@ class FileWriter(object):
         elif isinstance(event, SysexEvent):
             self.RunningStatus = None
             ret += chr(0xF0)
+            # the length includes the terminating F7
+            ret += write_varlen(len(event.data) + 1)
             ret += str.join('', map(chr, event.data))
             ret += chr(0xF7)
         # not a Meta MIDI event or a Sysex event, must be a general message
-- 
2.43.0


From 7a6fac0a10a0523cfd4d938aeda7957d14286e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 22/82] fix: patterns with a key, or without a name, can be
 exported to MIDI

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..e784107 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -33,7 +33,7 @@ def __keyToMidiFormat(keyString):
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = gsdefs.midiKey.keys()[gsdefs.midiKey.values().index(keyString)]
+    tonic = [n for n, k in gsdefs.midiKey.items() if k == keyString][0]
     return tonic, mode
 
 
@@ -331,7 +331,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Write Metadata
     track.append(midiio.TimeSignatureEvent(numerator=myPattern.timeSignature[0],
                                            denominator=myPattern.timeSignature[1]))
-    track.append(midiio.TrackNameEvent(text=myPattern.name))
+    track.append(midiio.TrackNameEvent(text=myPattern.name or ""))
     track.append(midiio.SetTempoEvent(bpm=myPattern.bpm))
     if myPattern.key:
         keyTuple = __keyToMidiFormat(myPattern.key)
-- 
2.43.0


From f0ea131e41c91b1913b94d02fce9967d362dea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 23/82] fix: toMidiFile uses the given map of tags to pitches

---
 gsapi/gsio.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index e784107..1b13f43 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -8,7 +8,6 @@ various standards formats (MIDI, JSON and Python's pickle).
 from __future__ import absolute_import, division, print_function
 
 import copy
-import collections
 import glob
 import json
 import logging
@@ -345,10 +344,10 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         endTick = int(beatToTick * e.endTime())
         # pitch = e.pitch
         channel = 1
-        if isinstance(midiMap, tuple):
-            pitch = midiMap[e.tag[0]]
-        elif isinstance(midiMap, collections.Hashable):
+        if isinstance(midiMap, dict) and e.tag in midiMap:
             pitch = midiMap[e.tag]
+        elif isinstance(midiMap, dict) and isinstance(e.tag, tuple) and e.tag and e.tag[0] in midiMap:
+            pitch = midiMap[e.tag[0]]
         else:
             pitch = e.pitch
         track.append(midiio.NoteOnEvent(tick=startTick, velocity=e.velocity, pitch=pitch, channel=channel))
-- 
2.43.0


From ba63fec6fa4f81337666431abce5248b879b6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 24/82] fix: MIDI export does not depend on the order of the
 events

---
 gsapi/gsio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 1b13f43..eaa6793 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -339,7 +339,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    # in time order, so that a note ends before the next one of its pitch starts
+    for e in sorted(myPattern.events, key=lambda e: e.startTime):
         startTick = int(beatToTick * e.startTime)
         endTick = int(beatToTick * e.endTime())
         # pitch = e.pitch
-- 
2.43.0


From 12f619bae66fa24a8f44b574fca040536a7f4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 25/82] fix: MIDI import does not change the given map

---
 gsapi/gsio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index eaa6793..4c68252 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -88,6 +88,8 @@ def __tagFromMidiNote(_noteToTag):
         else:
             if not isinstance(noteToTag[n], list):
                 noteToTag[n] = [noteToTag[n]]
+            else:
+                noteToTag[n] = list(noteToTag[n])
             for i in range(len(noteToTag[n])):
                 if isinstance(noteToTag[n][i], int):
                     noteToTag[n][i] = (noteToTag[n][i], "*")
-- 
2.43.0


From dfb86c1cf9868672ff667acf46a5d00c0145a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 26/82] fix: tags are taken from the name of the track

---
 gsapi/gsio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 4c68252..6755b3c 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -114,7 +114,9 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
+    if len(res) == 1:
+        return res[0]
     return res
 
 
@@ -145,6 +147,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackDuration = None
     for tracks in globalMidi:
         shouldSkipTrack = False
+        noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
                 continue
-- 
2.43.0


From 88af5ce4aa425396906b0e441784860b12b0c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 27/82] fix: unnamed tracks that were not asked for are skipped
 too

---
 gsapi/gsio.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 6755b3c..567a01a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -146,7 +146,9 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
-        shouldSkipTrack = False
+        trackNames = [e.text for e in tracks if isinstance(e, midiio.TrackNameEvent)]
+        shouldSkipTrack = tracksToGet and trackIdx not in tracksToGet and not any(
+            n in tracksToGet for n in trackNames)
         noteTag = ()
         for e in tracks:
             if shouldSkipTrack:
@@ -155,14 +157,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                 noteTag = ()
             if midiio.MetaEvent.is_event(e.statusmsg):
                 if e.metacommand == midiio.TrackNameEvent.metacommand:
-                    if tracksToGet and not (
-                        (e.text in tracksToGet) or (trackIdx in tracksToGet)):
-                        gsioLog.info(
-                            "skipping track: %i %s" % (trackIdx, e.text))
-                        shouldSkipTrack = True
-                        continue
-                    else:
-                        gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
+                    gsioLog.info(myPattern.name + ": getting track: %i %s" % (trackIdx, e.text))
 
                     if tagFromTrackName:
                         noteTag = __tagFromTrackName(e.text, noteToTagMap)
-- 
2.43.0


From 4a4ffb577034a23ca2b5e7ac21fa158618a7a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 28/82] fix: a note off without note on does not break MIDI
 import

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 567a01a..5d73af3 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -207,8 +207,8 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                             gsioLog.info("set duration %f at start %f " % (i.duration, i.startTime))
                             break
                     if not foundNoteOn:
-                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s\n%s , %s " %
-                                        (e, myPattern.events[-1], noteTag, curBeat))
+                        gsioLog.warning(myPattern.name + ": not found note on\n %s\n%s , %s " %
+                                        (e, noteTag, curBeat))
         trackIdx += 1
     elementSize = 4.0 / myPattern.timeSignature[1]
     barSize = myPattern.timeSignature[0] * elementSize
-- 
2.43.0


From b6be4b62fb3b29acc4df346ed8459d038a262955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 29/82] fix: fromMidiCollection imports like fromMidiFile

---
 gsapi/gsio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 5d73af3..d89fba6 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -264,7 +264,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -295,7 +295,7 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From 748d75d4d93ecc34fd94e061f643940a9cac5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 30/82] fix: a note off ends a note of its own channel

---
 gsapi/gsio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index d89fba6..6bbb039 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -143,6 +143,7 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
     myPattern.events = []
     lastNoteOff = 0
     notFoundTags = []
+    channels = []  # of the notes in myPattern.events
     trackIdx = 0
     trackDuration = None
     for tracks in globalMidi:
@@ -193,12 +194,15 @@ def __fromMidiFormat(midiPath, noteToTagMap, tracksToGet=None, tagFromTrackName=
                     if extremeLog: gsioLog.debug("on %d %f" % (pitch, curBeat))
                     myPattern.events += [gspattern.Event(startTime=curBeat, duration=-1, pitch=pitch,
                                                          velocity=velocity, tag=noteTag)]
+                    channels += [e.channel]
                 if isNoteOff:
                     if extremeLog:
                         gsioLog.debug("off %d %f" % (pitch, curBeat))
                     foundNoteOn = False
                     isTrueNoteOff = midiio.NoteOffEvent.is_event(e.statusmsg)
-                    for i in reversed(myPattern.events):
+                    for i, channel in zip(reversed(myPattern.events), reversed(channels)):
+                        if channel != e.channel:
+                            continue
                         if (i.pitch == pitch) and (i.tag == noteTag) and ((isTrueNoteOff and (curBeat >= i.startTime))
                                                                     or curBeat > i.startTime) and i.duration <= 0.0001:
                             foundNoteOn = True
-- 
2.43.0


From b9af391b398e67b740ee0bcf5079872372823419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 31/82] fix: minor keys have the accidentals of their relative
 major

---
 gsapi/gsdefs.py | 17 +++++++++++++++++
 gsapi/gsio.py   |  6 ++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 3c626bd..5279874 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -173,6 +173,23 @@ midiKey = {-7: 'Cb',
            6: 'F#',
            7: 'C#'}
 
+# tonics of the minor keys with the same accidentals
+midiKeyMinor = {-7: 'Ab',
+                -6: 'Eb',
+                -5: 'Bb',
+                -4: 'F',
+                -3: 'C',
+                -2: 'G',
+                -1: 'D',
+                0: 'A',
+                1: 'E',
+                2: 'B',
+                3: 'F#',
+                4: 'C#',
+                5: 'G#',
+                6: 'D#',
+                7: 'A#'}
+
 noteMap= {"c-1":   0,
           "c#-1":  1,
           "d-1":   2,
diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 6bbb039..3c8240a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -29,10 +29,12 @@ gsioLog.setLevel(level=logging.WARNING)
 
 def __keyToMidiFormat(keyString):
     mode = 0
+    midiKey = gsdefs.midiKey
     if 'm' in keyString:
         keyString = keyString[:-1]
         mode = 1
-    tonic = [n for n, k in gsdefs.midiKey.items() if k == keyString][0]
+        midiKey = gsdefs.midiKeyMinor
+    tonic = [n for n, k in midiKey.items() if k == keyString][0]
     return tonic, mode
 
 
@@ -64,7 +66,7 @@ def __metaEventsFromMidiFile(myPattern, midiFile):
                     foundKey = True
                     keyName = gsdefs.midiKey[e.alternatives]
                     if e.minor == 1:
-                        keyName += "m"
+                        keyName = gsdefs.midiKeyMinor[e.alternatives] + "m"
                     myPattern.key = keyName
 
                     # if foundTimeSignatureEvent:
-- 
2.43.0


From 2bb9b94742bf1666fff364f4cef9ee8b8760929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 32/82] fix: accidentals are compared by value

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..fa171d0 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From 95b24977e333c52b5c8b4934de73c56bc3824619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 33/82] fix: the eleventh of min(add11) is a fourth above the
 octave

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 5279874..90a7d9c 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -73,7 +73,7 @@ chordTypes = {"0":          [0],
               "min(add9)":  [0, 3, 7, 14],
               "7sus4":      [0, 5, 7, 10],
               "add11":      [0, 4, 7, 17],
-              "min(add11)": [0, 3, 7, 16],
+              "min(add11)": [0, 3, 7, 17],
               "9":          [0, 4, 7, 10, 14],
               "b9":         [0, 4, 7, 10, 13],
               "maj9":       [0, 4, 7, 11, 14],
-- 
2.43.0


From 561dcbbf09c4744f807a60e698ceca86eb6e5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 34/82] fix: maj#11 chords have a major seventh

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 90a7d9c..24f3cfa 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -47,7 +47,7 @@ chordIntervals = {"0":           [],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
                   "#11":         [12, 11, 11, 12, 12],
-                  "maj#11":      [12, 11, 11, 12, 12],
+                  "maj#11":      [12, 11, 12, 11, 12],
                   "min#11":      [11, 12, 11, 12, 12]}
 
 chordTypes = {"0":          [0],
-- 
2.43.0


From 3272fa714ab0d0ea9e163aae10310e88ce9ad249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 35/82] fix: patterns saved with tag indexing can be loaded

---
 gsapi/gspattern.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 42a1072..62cce8f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -539,8 +539,8 @@ class Pattern(object):
                                       duration=e['duration'],
                                       pitch=e['pitch'],
                                       velocity=e['velocity'],
-                                      tag=tuple(
-                                              [tags[f] for f in e['tagsIdx']])
+                                      tag=tags[e['tagIdx']] if 'tagIdx' in e else
+                                      tuple([tags[f] for f in e['tagsIdx']])
                                       )]
         else:
             for e in json['eventList']:
@@ -1001,19 +1001,15 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            allTags = list(self.getAllTags())
             res['eventTags'] = allTags
 
-            def findIdxforTags(tags, allTags):
-                return [allTags.index(x) for x in tags]
-
             for e in self.events:
                 res['eventList'] += [{'on':       e.startTime,
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
-                                                                 allTags)
+                                      'tagIdx':   allTags.index(e.tag)
                                       }]
         else:
             for e in self.events:
-- 
2.43.0


From 54b18853c92067e2da7eb9b4b6b89fad261c1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 36/82] fix: key and start time are saved to JSON

---
 gsapi/gspattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 62cce8f..13cf8fb 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -513,8 +513,10 @@ class Pattern(object):
 
         """
         self.name = json['name']
+        self.key = json.get('key')
         self.duration = json['timeInfo']['duration']
         self.bpm = json['timeInfo']['bpm']
+        self.startTime = json['timeInfo'].get('startTime', 0)
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
         if 'originPattern' in json:
             def findOriginPatternInParent(name):
@@ -994,9 +996,11 @@ class Pattern(object):
         res = {}
         self.durationToLastEvent()
         res['name'] = self.name
+        res['key'] = self.key
         if self.originPattern: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
-                           'timeSignature': self.timeSignature}
+                           'timeSignature': self.timeSignature,
+                           'startTime': self.startTime}
         res['eventList'] = []
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
-- 
2.43.0


From 8ab2951090bdd37b7cee70031a0fe68d5eb9fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 37/82] fix: viewpoints saved on their own, or of empty
 patterns, can be loaded

---
 gsapi/gspattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 13cf8fb..76a9673 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -518,12 +518,12 @@ class Pattern(object):
         self.bpm = json['timeInfo']['bpm']
         self.startTime = json['timeInfo'].get('startTime', 0)
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
-        if 'originPattern' in json:
+        if 'originPattern' in json and parentPattern is not None:
             def findOriginPatternInParent(name):
                 if not name:
                     return None
                 checkedPattern = parentPattern
-                while checkedPattern:
+                while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
@@ -997,7 +997,7 @@ class Pattern(object):
         self.durationToLastEvent()
         res['name'] = self.name
         res['key'] = self.key
-        if self.originPattern: res['originPattern'] = self.originPattern.name
+        if self.originPattern is not None: res['originPattern'] = self.originPattern.name
         res['timeInfo'] = {'duration':      self.duration, 'bpm': self.bpm,
                            'timeSignature': self.timeSignature,
                            'startTime': self.startTime}
-- 
2.43.0


From 4742072829f89685a21042720fc0d0acee2db602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 38/82] fix: tuples inside tuples are preserved in JSON

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3c8240a..45050eb 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -434,7 +434,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From 416644535dc3331c92bd5e40367897aadbf2ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:27 +0000
Subject: [PATCH 39/82] fix: a label whose rules accept a note twice tags it
 once

---
 gsapi/gsio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 45050eb..0e2c6bb 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -107,6 +107,7 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
         for le in noteMapping[l]:
             if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                 res += (l,)
+                break
     if len(res) == 1:
         return res[0]
     return res
-- 
2.43.0


From 077ff2f9dde5df62bf28edc92a16694400b6527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:30 +0000
Subject: [PATCH 40/82] fix: Chordify handles tagged and unordered notes

---
 gsapi/gstransformers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..4cd4de0 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -295,13 +295,12 @@ class Chordify(BaseTransformer):
         """Return a transformed Pattern"""
         self.outputPattern = self.inputPattern.copyWithoutEvents()
         p = -1
-        for e in self.inputPattern:
+        for e in sorted(self.inputPattern.events, key=lambda e: e.startTime):
             if e.startTime != p:
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
                 for ee in self.inputPattern.activeEventsAtTime(e.startTime):
                     new_chord.components.append([ee.pitch, ee.velocity])
-                    for tag in ee.tag:
-                        new_chord.tag.append(tag)
+                    new_chord.tag += ee.tag if isinstance(ee.tag, tuple) else (ee.tag,)
                 self.outputPattern.addEvent(new_chord)
             p = e.startTime
         return self.outputPattern
-- 
2.43.0


From de24bcb6ff9cb5c27a77002544da251083d9dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 41/82] fix: generating a viewpoint keeps the order of the
 pattern's events

---
 gsapi/gspattern.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 76a9673..5d11386 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -585,10 +585,9 @@ class Pattern(object):
                 patternsList = originPattern.splitInEqualLengthPatterns(step)
 
             elif sliceType == "perEvent":
-                originPattern.reorderEvents()
                 lastTime = -1
                 patternsList = []
-                for consideredEvent in originPattern:
+                for consideredEvent in sorted(originPattern.events, key=lambda e: e.startTime):
                     if lastTime < consideredEvent.startTime:  # group all identical startTimeEvents
                         pattern = originPattern.copyWithoutEvents()
                         pattern.startTime = consideredEvent.startTime
-- 
2.43.0


From b950e1a5aaa43878676390d7d35430dcdaf7ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 42/82] fix: Markov generation imports the pattern module it
 uses

---
 gsapi/gsstyles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..322bd62 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,6 +4,7 @@ import copy
 import logging
 import random
 
+from . import gspattern
 from .gspattern import Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
-- 
2.43.0


From d8be9d3d26e2621b4051003373e5d6a1ba34fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 43/82] fix: Markov generation draws every transition with its
 probability

---
 gsapi/gsstyles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 322bd62..5e752fb 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -421,9 +421,10 @@ class PatternMarkov(object):
                     tSum += x
                     bins += [tSum]
                 r = random.random()
-                for i in range(1, len(bins)):
-                    if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                chosenIdx = len(bins) - 1
+                for i in range(len(bins)):
+                    if r < bins[i]:
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From 37d56f9e927c3fb726aa716d43af3f600ddb62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 44/82] fix: DatabaseStyle tells whether it is built

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 5e752fb..197a7a4 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -170,7 +170,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From ad21c43e26a560b080bcac922eb59c53c346238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 45/82] fix: DatabaseStyle uses the seed it is given

---
 gsapi/gsstyles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 197a7a4..4c7bb0d 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -143,6 +143,7 @@ class DatabaseStyle(BaseStyle):
             print("reading", self.currentIdx)
             return p
         elif self.generatePatternOrdering == 'random':
+            random.seed(seed)
             return self.patternList[int(random.random() * len(self.patternList))]
         elif self.generatePatternOrdering == 'indexed':
             return self.patternList[self.currentIdx]
-- 
2.43.0


From a2f94fd0ffc027f301b6ea1a27e45b1492b8bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 46/82] fix: Markov states do not depend on the order of
 simultaneous notes

---
 gsapi/gsstyles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 4c7bb0d..0630579 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -501,8 +501,8 @@ class PatternMarkov(object):
             for e in evAtStep:
                 curL += [e.tag]
 
-            # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            # sorting allows for having consistent ordering, and set removes step-wise overlapping events
+            res += (tuple(sorted(set(curL), key=repr)),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From 09f21bde4096c2a1d99e6ac2b0589096e2bf38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 47/82] fix: printing a Markov style under Python 3

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 0630579..de2c927 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -345,7 +345,7 @@ class PatternMarkov(object):
 
         def _tupleToString(d):
             if isinstance(d, dict):
-                for k, v in d.items():
+                for k, v in list(d.items()):
                     if isinstance(k, tuple):
                         d[str(_tupleToString(k))] = d.pop(k)
                     _tupleToString(v)
-- 
2.43.0


From 45673981dc5f219317712f3cb6ed4f9bb77a538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 48/82] fix: styles can be saved to and loaded from pickle
 files

---
 gsapi/gsstyles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index de2c927..b759942 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -106,7 +106,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -114,7 +115,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
-- 
2.43.0


From 7899e1a562ba205ae3474ae34eb404ee86322655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 49/82] fix: Markov styles can be saved to JSON, compound tags
 in styles survive it

---
 gsapi/gsstyles.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index b759942..34f30d3 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -11,6 +11,32 @@ markovLog = logging.getLogger('gsapi.styles.markov_style')
 # todo change this to fit the new reorganisation!
 
 
+def _toJSONTypes(obj):
+    """
+    Replaces what JSON cannot represent (tuples, keys that are not strings).
+
+    """
+    if isinstance(obj, dict):
+        return {"__dict__": [[_toJSONTypes(k), _toJSONTypes(v)] for k, v in obj.items()]}
+    if isinstance(obj, tuple):
+        return {"__tuple__": [_toJSONTypes(e) for e in obj]}
+    if isinstance(obj, list):
+        return [_toJSONTypes(e) for e in obj]
+    return obj
+
+
+def _fromJSONTypes(obj):
+    if isinstance(obj, dict):
+        if "__dict__" in obj:
+            return {_fromJSONTypes(k): _fromJSONTypes(v) for k, v in obj["__dict__"]}
+        if "__tuple__" in obj:
+            return tuple(_fromJSONTypes(e) for e in obj["__tuple__"])
+        return {k: _fromJSONTypes(v) for k, v in obj.items()}
+    if isinstance(obj, list):
+        return [_fromJSONTypes(e) for e in obj]
+    return obj
+
+
 class BaseStyle(object):
     """
     Base class to define a style.
@@ -91,12 +117,12 @@ class BaseStyle(object):
         import json
         state = self.getInternalState()
         with open(filePath, 'w') as f:
-            json.dump(state, f)
+            json.dump(_toJSONTypes(state), f)
 
     def loadFromJSON(self, filePath):
         import json
         with open(filePath, 'r') as f:
-            state = json.load(f)
+            state = _fromJSONTypes(json.load(f))
         if state:
             self.setInternalState(state)
 
-- 
2.43.0


From 91d79b701b5ba2e25416ba2237269e2bc6ac1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 50/82] fix: a min9 chord has a major ninth, as in the table of
 chord types

---
 gsapi/gsdefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsdefs.py b/gsapi/gsdefs.py
index 24f3cfa..8f35682 100644
--- a/gsapi/gsdefs.py
+++ b/gsapi/gsdefs.py
@@ -42,7 +42,7 @@ chordIntervals = {"0":           [],
                   "min(add#11)": [11, 12, 35],
                   "9":           [12, 11, 11, 12],
                   "maj9":        [12, 11, 12, 11],
-                  "min9":        [11, 12, 11, 11],
+                  "min9":        [11, 12, 11, 12],
                   "11":          [12, 11, 11, 12, 11],
                   "maj11":       [12, 11, 12, 11, 11],
                   "min11":       [11, 12, 11, 12, 11],
-- 
2.43.0


From fdc14c4626aa69865cdc551be310177d209d5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 51/82] fix: sampling a distribution can return its last index

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..233edb4 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -51,7 +51,7 @@ def pdf_sampling(n):  # variable argument list
 
     x = random.random()
     f = 0
-    for i in range(1, len(n)):
+    for i in range(1, len(n) + 1):
         if x < sum(n[0:i]):
             f = i - 1
             break
-- 
2.43.0


From a4923abbd4635c42cca19c2beb42caa854176937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 52/82] fix: rhythms of imported patterns (whose number of
 beats is a float) can be binarised

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 233edb4..66df1f1 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -926,12 +926,12 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
     subdiv_aux = np.array([0., 0.25, 0.5, 0.75])
     # Matrix to store the binary representation of the midi files
     # Basslines -> 1 matrix
-    rhythm = np.zeros((noBeats_bass, resolution), dtype=int)
+    rhythm = np.zeros((int(np.ceil(noBeats_bass)), resolution), dtype=int)
 
     for o in aPattern:
         # quantize to the closest subdivision
         i, d = divmod(o, 1)  # i = row(beat number) , d = column (beat subdivision)
         d_ = (abs(subdiv_aux - d)).argmin()
-        if i < noBeats_bass:
+        if i < len(rhythm):
             rhythm[int(i), d_] = 1
     return rhythm
-- 
2.43.0


From e59536e64a5a62525d9f73924d75e2434c6413e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 53/82] fix: count the transition into the last beat of a bass
 line

---
 gsapi/bassmine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 66df1f1..83a558c 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -125,10 +125,10 @@ class MarkovModel:
         for p in pattern:
             if count == 0:
                 self.update_initial(p)
-            elif 0 < count < len(pattern) - 1:
+            else:
                 self.update_temporal(pattern[count - 1], p)
-            elif count == len(pattern) - 1:
-                self.update_temporal(pattern[count], pattern[0])
+                if count == len(pattern) - 1:  # the pattern loops
+                    self.update_temporal(p, pattern[0])
             count += 1
 
     def add_interlocking(self, patt_kick, patt_bass):
-- 
2.43.0


From a81ab9df6c39fe515f4f167a9a022a894e37e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 54/82] fix: normalising a bass line model keeps its counts

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 83a558c..d2dfd50 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -179,8 +179,8 @@ class MarkovModel:
         Normalize matrices
         """
         self.initial_model = self.support_initial / sum(self.support_initial)
-        self.temporal_model = normalize(self.support_temporal)
-        self.interlocking_model = normalize(self.support_interlocking)
+        self.temporal_model = normalize(self.support_temporal.copy())
+        self.interlocking_model = normalize(self.support_interlocking.copy())
         self.normalized = True
 
     def get_initial(self):
-- 
2.43.0


From adae76d357e8dd64d1c590b0ff533d51c7e939ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 55/82] fix: interlocking models can be built with Python 3

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index d2dfd50..ca52637 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -397,7 +397,7 @@ def constrainMM(markov_model, target, _path="output/"):
         init.append(b0[key])
     init_dict['initial'] = dict()
     init_dict['initial']['prob'] = list(init / sum(init))
-    init_dict['initial']['pattern'] = V[0].keys()
+    init_dict['initial']['pattern'] = list(V[0].keys())
     # print( init_dict)
     for i in range(len(V)):
         out_Model[i] = {}
-- 
2.43.0


From 76cfd8114ecccd0b60367c80554b1fc73eedc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 56/82] fix: constrained bass line models only keep patterns
 that can be continued up to the last beat

---
 gsapi/bassmine.py | 87 +++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 63 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ca52637..c1ddb47 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -280,6 +280,22 @@ class MarkovModel:
         return pitch_dict
 
 
+def propagate(V):
+    """
+    Make a model arc consistent: from the last step backwards, keep only the continuations that can be
+    continued at the next step, and only the patterns that have a continuation.
+
+    Args:
+        V: list of the domains of every step (dictionary of sets), modified in place
+    """
+    for step in range(len(V) - 1, -1, -1):
+        for key, value in list(V[step].items()):
+            if step + 1 < len(V):
+                V[step][key] = value.intersection([str(x) for x in V[step + 1].keys()])
+            if len(V[step][key]) == 0:
+                del V[step][key]
+
+
 def constrainMM(markov_model, target, _path="output/"):
     """
 
@@ -362,32 +378,7 @@ def constrainMM(markov_model, target, _path="output/"):
                 # print( "check\n")
                 # print( "V", step, V[step].keys())
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    #  print( val_del)
-    #  Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            #  Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    propagate(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
     out_Model = {}
@@ -467,10 +458,7 @@ def variationMM(markov_model, target, _path="output/"):
 
     V.append(dict())
 
-    if target[1] >= 0:
-        V[0][target[0]] = {str(target[1])}
-    else:
-        V[0][target[0]] = Dom_B[target[0]]
+    V[0][target[0]] = Dom_B[target[0]]
 
     for i in range(1, len(target) - 1):
 
@@ -503,47 +491,20 @@ def variationMM(markov_model, target, _path="output/"):
     # print( V)
 
 
-    ## Delete values from each key in V[i] that are not in V[i+1]
-    val_del = dict()
-    ## Font-propagation
-    for step in range(1, len(target) - 1):
-        val_del_temp = []
-        next_key = set([str(x) for x in V[step].keys()])
-        # print( next_key)
-        for key, value in V[step - 1].items():
-            # print( key, value)
-            tmp_int = value.intersection(next_key)
-            # if len(tmp_int) > 0:
-            V[step - 1][key] = tmp_int
-            if len(tmp_int) == 0:
-                val_del_temp.append(key)
-        val_del[step] = val_del_temp
-    # print( val_del)
-    ## Back-propagation
-    for step, value in val_del.items():
-        if len(value) > 0:
-            for v in value:
-                ## Delete key
-                V[step - 1].pop(v, None)
-            ## Delete in previous continuations
-            # print( V[step-2])
-            for idx in V[step - 2].keys():
-                V[step - 2][idx] = set([str(x) for x in V[step - 1].keys()]).intersection(V[step - 2][idx])
+    # Force last beat
+    if target[len(target) - 1] >= 0:
+        for key, val in V[len(V) - 1].items():
+            V[len(V) - 1][key] = val.intersection({str(target[len(target) - 1])})
+
+    propagate(V)
     # BUILD FINAL DICTIONARY
     # print( "\nFinal Model:")
 
-    for key, val in V[len(V) - 1].items():
-        tmp_val = val.intersection({str(target[len(target) - 1])})
-        # print( tmp_val)
-        if len(tmp_val) > 0:
-            V[len(V) - 1][key] = tmp_val
-
     # for value in V:
     #	print( value)
     #	print( "\n")
 
     out_Model = {}
-    # Force last beat
     # init = []
     init_dict = dict()
     # for key in V[0]:
-- 
2.43.0


From 6d788692ab19a9377295df8b2ef96f36edd1b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 57/82] fix: bass patterns without any observed continuation do
 not break constrained models

---
 gsapi/bassmine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index c1ddb47..4832bc8 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -3,6 +3,7 @@
 
 from __future__ import absolute_import, division, print_function
 
+import collections
 import copy
 import json
 import os
@@ -322,7 +323,7 @@ def constrainMM(markov_model, target, _path="output/"):
     # b and inter are converted to dictionaries {row>0 : (idx columns>0)}
     # Domains
     Dom_init = markov_tm_2dict(b0)
-    Dom_B = markov_tm_2dict(b)
+    Dom_B = collections.defaultdict(set, markov_tm_2dict(b))
     Dom_I = markov_tm_2dict(inter)
 
     # print( "Initial dict ", Dom_init)
@@ -441,7 +442,7 @@ def variationMM(markov_model, target, _path="output/"):
 
     ## Domains
     # Dom_init = markov_tm_2dict(b0)
-    Dom_B = markov_tm_2dict(b)
+    Dom_B = collections.defaultdict(set, markov_tm_2dict(b))
     # Dom_I = markov_tm_2dict(inter)
 
     # print( "Initial dict ", Dom_init)
-- 
2.43.0


From 64f285f0ee007b8da15fc419ea68be7b0c9ec266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 58/82] fix: a constrained bass line is as long as its target,
 however many notes that has

---
 gsapi/bassmine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 4832bc8..305c2ea 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -649,8 +649,8 @@ def generateBassRhythm(markov_model, beat_length=8, target=[]):
 
     else:  # use constrained model
 
-        if len(target) < beat_length:
-            beat_length = len(target)
+        if target.duration < beat_length:
+            beat_length = int(np.ceil(target.duration))
 
         NHMM = constrainMM(markov_model, target)
         pattern_idx.append(np.random.choice(NHMM[0]['initial']['pattern'], p=NHMM[0]['initial']['prob']))
-- 
2.43.0


From 63d5617baeda93bc2165f1135512e050f880dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 59/82] fix: the variation of a bass line keeps its last beat

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 305c2ea..1a5cc76 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -738,7 +738,7 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(variation_mask) - 1)]
+        masked_target = [target_id[i] * variation_mask[i] for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From 0456e47642df6194f98ecd3082d13df21baf5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 60/82] fix: models of bass line variations can be written
 (codes of beats are plain integers)

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 1a5cc76..b9d2fac 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -862,7 +862,7 @@ def translate_rhythm(rhythm):
     iddic = []
 
     for beat in rhythm:
-        iddic.append((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3])
+        iddic.append(int((beat[0] * 8) + (beat[1] * 4) + (beat[2] * 2) + beat[3]))
     return iddic
 
 
-- 
2.43.0


From ffe34ca14875cc0ddfacd996ccd8ad7952433036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 61/82] fix: masked silent beats of a bass line vary too, and
 masking its first beat is no error

---
 gsapi/bassmine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index b9d2fac..5617211 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -738,7 +738,8 @@ def generateBassRhythmVariation(markov_model, target_pattern, variation_mask):
         target_rhythm = binaryBeatPattern(onset_target, target_pattern.duration)
         target_id = translate_rhythm(target_rhythm)
         # Mask formatted pattern
-        masked_target = [target_id[i] * variation_mask[i] for i in range(len(target_id))]
+        # (the first beat is where the variation starts from: it is kept whatever the mask)
+        masked_target = [target_id[i] if i == 0 or variation_mask[i] >= 0 else -1 for i in range(len(target_id))]
 
         # Build variation model
         NHMM = variationMM(markov_model, masked_target)
-- 
2.43.0


From f1eb1101899b761dbabb9e960867ae62862757b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 62/82] fix: AgnosticDensity reaches every density from any
 other

Adding after removing (or the other way round) raised ValueError, density 0
kept a note and density 2 left a silent step, a voice filling every step
divided by zero, and going across density 1 forgot the changes made so far.
---
 gsapi/gstransformers.py | 96 ++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 63 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 4cd4de0..3c9436a 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -103,53 +103,25 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                state = self.currentState[key]
+                numOrigin = len(state['notes']) - len(state['addedNotes']) + len(state['removedNotes'])
+                value = max(0, min(value, 2))
+                if value > 1:
+                    number = numOrigin + (value - 1) * (self.numSteps - numOrigin)
+                else:
+                    number = value * numOrigin
+                number = int(round(number))
+                while len(state['notes']) < number:
+                    self.addEventForTag(key)
+                while len(state['notes']) > number:
+                    self.removeEventForTag(key)
+                self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
 
-    def addEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['silences']
+    def addEventForTag(self, tag):
+        state = self.currentState[tag]
         # we need to go toward origin pattern if adding while having lower density
-        if targetDensity < 1:
-            availableIdx = self.currentState[tag]['removedNotes']
+        availableIdx = state['removedNotes'] or state['silences']
 
         idx = 0
         if self.mode == 'hysteresis':
@@ -157,25 +129,23 @@ class AgnosticDensity(BaseTransformer):
 
         idxToAdd = availableIdx[idx]
 
-        orIdx = self.currentState[tag]['silences'].index(idxToAdd)
-        del self.currentState[tag]['silences'][orIdx]
-        if targetDensity < 1:
-            del self.currentState[tag]['removedNotes'][idx]
+        state['silences'].remove(idxToAdd)
+        state['notes'] += [idxToAdd]
+        if idxToAdd in state['removedNotes']:
+            state['removedNotes'].remove(idxToAdd)
+        else:
+            state['addedNotes'] += [idxToAdd]
 
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
+        tPattern = self.originPattern.getPatternWithTags(tag, makeCopy=False)
+        newEv = (tPattern.getStartingEventsAtTime(idxToAdd) or tPattern.events)[0].copy()
         newEv.startTime = idxToAdd
         newEv.duration = 1
         self.currentPattern.events += [newEv]
 
-    def removeEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['notes']
-
+    def removeEventForTag(self, tag):
+        state = self.currentState[tag]
         # we need to go toward origin pattern if removing while having higher density
-        if targetDensity > 1:
-            availableIdx = self.currentState[tag]['addedNotes']
+        availableIdx = state['addedNotes'] or state['notes']
 
         idx = 0
         if self.mode == 'hysteresis':
@@ -183,14 +153,14 @@ class AgnosticDensity(BaseTransformer):
 
         idxToRemove = availableIdx[idx]
 
-        orIdx = self.currentState[tag]['notes'].index(idxToRemove)
-        del self.currentState[tag]['notes'][orIdx]
-        if targetDensity > 1:
-            del self.currentState[tag]['addedNotes'][idx]
+        state['notes'].remove(idxToRemove)
+        state['silences'] += [idxToRemove]
+        if idxToRemove in state['addedNotes']:
+            state['addedNotes'].remove(idxToRemove)
+        else:
+            state['removedNotes'] += [idxToRemove]
 
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
         tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-
         eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
         self.currentPattern.removeEvent(eventToRemove)
 
-- 
2.43.0


From 795558f215145cb506c4ffe99fcd624a95a8e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 63/82] fix: slices of MIDI patterns and tracks keep their tick
 mode

---
 gsapi/midiio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 55b0e43..0faa10e 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -231,6 +231,7 @@ class Pattern(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Pattern(resolution=self.resolution, frmt=self.frmt,
+                           tick_relative=self.tick_relative,
                            tracks=(super(Pattern, self).__getitem__(i) for i in
                                    xrange(*indices)))
         else:
@@ -267,7 +268,7 @@ class Track(list):
         if isinstance(item, slice):
             indices = item.indices(len(self))
             return Track((super(Track, self).__getitem__(i) for i in
-                          xrange(*indices)))
+                          xrange(*indices)), tick_relative=self.tick_relative)
         else:
             return super(Track, self).__getitem__(item)
 
-- 
2.43.0


From 18875c0821d8f8460d1d62bf6d412a279ba77f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 64/82] fix: copies of MIDI events have their own data, and
 meta events can be copied

---
 gsapi/midiio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 0faa10e..bce59f4 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -334,6 +334,11 @@ class AbstractEvent(EventBase):
         for key in kw:
             setattr(self, key, kw[key])
 
+    def copy(self, **kw):
+        _kw = {'tick': self.tick, 'data': list(self.data)}
+        _kw.update(kw)
+        return self.__class__(**_kw)
+
     def __cmp__(self, other):
         if self.tick < other.tick:
             return -1
@@ -366,7 +371,7 @@ class Event(AbstractEvent):
         super(Event, self).__init__(**kw)
 
     def copy(self, **kw):
-        _kw = {'channel': self.channel, 'tick': self.tick, 'data': self.data}
+        _kw = {'channel': self.channel, 'tick': self.tick, 'data': list(self.data)}
         _kw.update(kw)
         return self.__class__(**_kw)
 
@@ -624,7 +629,7 @@ class UnknownMetaEvent(MetaEvent):
 
     def copy(self, **kw):
         kw['metacommand'] = self.metacommand
-        return super(UnknownMetaEvent, self).copy(kw)
+        return super(UnknownMetaEvent, self).copy(**kw)
 
 
 class ChannelPrefixEvent(MetaEvent):
-- 
2.43.0


From 7138875b11dc8acba4f8b516cdd5c506945aae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 65/82] fix: stripping an empty suffix leaves the name as it is

---
 gsapi/gsutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index fa171d0..b8025d1 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -53,7 +53,7 @@ def strip_suffix(filename, suffix=None):
 
     """
     if suffix is not None and filename.endswith(suffix):
-        return filename[:-len(suffix)]
+        return filename[:len(filename) - len(suffix)]
     return filename
 
 
-- 
2.43.0


From d25210e3f996a67101fb3317cd591cc221544503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 66/82] fix: names with brackets are matched with themselves

---
 gsapi/gsutil.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index b8025d1..84d1d21 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -80,16 +80,19 @@ def match_files(filename, match_list, suffix=None, match_suffix=None):
     """
     import os
     import fnmatch
+    import re
 
     # get the base name without the path
     basename = os.path.basename(strip_suffix(filename, suffix))
     # init return list
     matches = []
+    # brackets in the name are no wildcards
+    escaped = re.sub(r"([*?[])", r"[\1]", basename)
     # look for files with the same base name in the files_list
     if match_suffix is not None:
-        pattern = "*%s*%s" % (basename, match_suffix)
+        pattern = "*%s*%s" % (escaped, match_suffix)
     else:
-        pattern = "*%s" % basename
+        pattern = "*%s" % escaped
     for match in fnmatch.filter(match_list, pattern):
         # base names must match exactly
         if basename == os.path.basename(strip_suffix(match, match_suffix)):
-- 
2.43.0


From 22976e18c941d90e1c497b7e6fb38982f6b76c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 67/82] fix: corpus folders can be given with a slash at the
 end

---
 gsapi/bassmine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 5617211..c02ca64 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -793,12 +793,12 @@ def corpus_analysis(bass_path, drum_path):
 
     print("Bass Files")
     for bf in bass_files:
-        bass_names.append(bf[len(bass_path) + 1:-len('.mid')])
+        bass_names.append(os.path.basename(bf)[:-len('.mid')])
     print("\nNumber of files: ", len(bass_files))
 
     print("\nDrums Files")
     for df in drum_files:
-        drum_names.append(df[len(drum_path) + 1:-len('.mid')])
+        drum_names.append(os.path.basename(df)[:-len('.mid')])
     print("\nNumber of files: ", len(drum_files))
 
     # File counter
@@ -815,7 +815,7 @@ def corpus_analysis(bass_path, drum_path):
     for f in range(len(drum_files)):
         match = gsutil.match_files('drums' + bass_names[f][4:], drum_names)
 
-        match_file = drum_path + '/' + match[0] + '.mid'
+        match_file = drum_files[drum_names.index(match[0])]
         print(('Bass file: '), bass_files[f])
         print(('Drum file: '), match_file)
         print(bass_names[f][5:-3])
-- 
2.43.0


From b70d36d839ca4feb53526fecd75e7b7d85d8ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:32 +0000
Subject: [PATCH 68/82] fix: corpus analysis uses every bass line that has a
 drum file

---
 gsapi/bassmine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index c02ca64..1aa9e40 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -812,8 +812,11 @@ def corpus_analysis(bass_path, drum_path):
     # pitch_model = markov.MarkovModel(25);
     # pitch_contours = []
     # LOOP THROUGH THE DIFFERENT MIDI INSTANCES
-    for f in range(len(drum_files)):
+    for f in range(len(bass_files)):
         match = gsutil.match_files('drums' + bass_names[f][4:], drum_names)
+        if not match:
+            print('No drum file for', bass_files[f])
+            continue
 
         match_file = drum_files[drum_names.index(match[0])]
         print(('Bass file: '), bass_files[f])
-- 
2.43.0


From b32c02e8f3811b0c368d5bafe9731e670a6f1517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 69/82] fix: patterns with tags of any type can be drawn

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 5d11386..fb54c40 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1114,7 +1114,7 @@ class Pattern(object):
         def __areSilenceEvts(l):
             if len(l) > 0:
                 for e in l:
-                    if 'silence' not in e.tag:
+                    if not e.hasOneOfTags('silence'):
                         return False
             return True
 
@@ -1149,7 +1149,7 @@ class Pattern(object):
 
                 isSilence = newSilenceState
                 # inited = True
-            out += "]: " + t
+            out += "]: " + str(t)
             print(out)
 
     def timeStretch(self, ratio):
-- 
2.43.0


From 1f910b03e3cf30e00ba8335e39c8ec141ec2225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 70/82] fix: a note at time 0 is drawn as a new note

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index fb54c40..348d840 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1124,9 +1124,9 @@ class Pattern(object):
             silenceASCII = '-'
             out = "["
             p = self.getPatternWithTags(t, makeCopy=True)
-            isSilence = __areSilenceEvts(p.activeEventsAtTime(0))
+            isSilence = True
             # inited = False
-            lastActiveEvent = p.events[0]
+            lastActiveEvent = None
             numSteps = int(self.duration * 1.0 / blockSize)
             for i in range(numSteps):
                 time = i * 1.0 * blockSize
-- 
2.43.0


From e79892f527f671c0ca46e96c913166ed030bf088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 71/82] fix: draw the start of a note while another note of its
 tag goes on

---
 gsapi/gspattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 348d840..d8f8d2b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1126,7 +1126,7 @@ class Pattern(object):
             p = self.getPatternWithTags(t, makeCopy=True)
             isSilence = True
             # inited = False
-            lastActiveEvent = None
+            lastTime = None
             numSteps = int(self.duration * 1.0 / blockSize)
             for i in range(numSteps):
                 time = i * 1.0 * blockSize
@@ -1137,17 +1137,17 @@ class Pattern(object):
                         out += silenceASCII
                     else:
                         out += noteOnASCII
-                        lastActiveEvent = el[0]
                 elif newSilenceState:
                     out += silenceASCII
                 elif not newSilenceState:
-                    if el[0].startTime == lastActiveEvent.startTime:
+                    # several notes may sound, stored in any order
+                    if max(e.startTime for e in el) <= lastTime:
                         out += sustainASCII
                     else:
                         out += noteOnASCII
-                        lastActiveEvent = el[0]
 
                 isSilence = newSilenceState
+                lastTime = time
                 # inited = True
             out += "]: " + str(t)
             print(out)
-- 
2.43.0


From 6b7636d5e95af6c1972e0b819596df356826582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 72/82] fix: learn patterns that occur twice or share events
 like any others

---
 gsapi/gsstyles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 34f30d3..2b0b37e 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -330,7 +330,8 @@ class PatternMarkov(object):
         """
         self.transitionTable = [{} for f in range(int(self.numSteps))]
 
-        self.binarizedPatterns = copy.deepcopy(self.originPatterns)
+        # copied one by one: patterns may occur twice or share events
+        self.binarizedPatterns = [p.copy() for p in self.originPatterns]
         for p in self.binarizedPatterns:
             self.formatPattern(p)
             self.checkSilences(p)
-- 
2.43.0


From c9375e3ed9a47d5c0ed6cf9e6bf0d592ad8ef9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 73/82] fix: onsets before the start do not count as onsets of
 the last beat

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 1aa9e40..893d7e7 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -898,6 +898,6 @@ def binaryBeatPattern(aPattern, noBeats_bass, resolution=4):
         # quantize to the closest subdivision
         i, d = divmod(o, 1)  # i = row(beat number) , d = column (beat subdivision)
         d_ = (abs(subdiv_aux - d)).argmin()
-        if i < len(rhythm):
+        if 0 <= i < len(rhythm):
             rhythm[int(i), d_] = 1
     return rhythm
-- 
2.43.0


From 07e98838a333ef5ba97982db86ad7dda59828446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 74/82] fix: align notes before time 0 with their nearest step

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index d8f8d2b..7346f62 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -355,7 +355,7 @@ class Pattern(object):
             else:
                 evToAdd = [e]
             for ea in evToAdd:
-                ea.startTime = int(ea.startTime / stepSize + 0.5) * stepSize
+                ea.startTime = int(math.floor(ea.startTime / stepSize + 0.5)) * stepSize
                 # avoid adding last event out of duration range
                 if ea.startTime < self.duration:
                     ea.duration = stepSize
-- 
2.43.0


From 0a6dadb0cc3835b1cb490aeb9b9dbb3e6b93113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 75/82] fix: fit the duration to notes that end at time 0

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7346f62..c524953 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1040,7 +1040,7 @@ class Pattern(object):
 
         """
         total = self.lastNoteOff()
-        if total and (total > self.duration or not onlyIfBigger):
+        if total is not None and (total > self.duration or not onlyIfBigger):
             self.duration = total
 
     def durationToBar(self):
-- 
2.43.0


From a21410429f41f5b451bc3a2ad5d3944f805a4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 76/82] fix: split notes over any number of cuts of any length

---
 gsapi/gspattern.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c524953..7ab3490 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1066,8 +1066,8 @@ class Pattern(object):
             a list of patterns of length desiredLength
         """
 
-        def _handleEvent(e, patterns, makeCopy):
-            p = int(math.floor(e.startTime * 1.0 / desiredLength))
+        def _handleEvent(e, p, patterns, makeCopy):
+            # returns the part of the event that belongs to the following cuts
             numPattern = str(p)
             if numPattern not in patterns:
                 patterns[numPattern] = patternToSlice.copyWithoutEvents()
@@ -1078,23 +1078,29 @@ class Pattern(object):
                         numPattern].name = patternToSlice.name + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
+            remainingEvent = None
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
                 remainingEvent = e.copy()
                 newOnset = (p + 1) * desiredLength
                 remainingEvent.duration = remainingEvent.endTime() - newOnset
                 remainingEvent.startTime = newOnset
-                _handleEvent(remainingEvent, patterns, makeCopy)
                 newEv.duration = (p + 1) * desiredLength - e.startTime
 
             newEv.startTime -= p * desiredLength
             patterns[numPattern].events += [newEv]
+            return remainingEvent
 
         patterns = {}
 
         patternToSlice = self.viewpoints[
             viewpointName] if viewpointName else self
         for e in patternToSlice.events:
-            _handleEvent(e, patterns, makeCopy)
+            p = int(math.floor(e.startTime * 1.0 / desiredLength))
+            if e.startTime >= (p + 1) * desiredLength:
+                p += 1  # the division was rounded down
+            while e is not None:
+                e = _handleEvent(e, p, patterns, makeCopy)
+                p += 1
         res = []
         maxListLen = int(
             math.ceil(patternToSlice.duration * 1.0 / desiredLength))
-- 
2.43.0


From 6311bf80149e9092510f167a261474428a300f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 77/82] fix: compare metres given as lists and as tuples

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 7ab3490..340414e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -261,7 +261,7 @@ class Pattern(object):
         if isinstance(other, Pattern):
             return (self.events == other.events) and (
                 self.duration == other.duration) and (
-                       self.timeSignature == other.timeSignature) and (
+                       tuple(self.timeSignature) == tuple(other.timeSignature)) and (
                        self.startTime == other.startTime)
         return NotImplemented
 
-- 
2.43.0


From e1f6c31dee6d4b7cc4411d50dde63356ee5234fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 78/82] fix: find the origin of the viewpoints of unnamed
 patterns

---
 gsapi/gspattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 340414e..f693ddf 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -520,14 +520,14 @@ class Pattern(object):
         self.timeSignature = tuple(json['timeInfo']['timeSignature'])
         if 'originPattern' in json and parentPattern is not None:
             def findOriginPatternInParent(name):
-                if not name:
-                    return None
                 checkedPattern = parentPattern
                 while checkedPattern is not None:
                     if checkedPattern.name == name:
                         return checkedPattern
                     checkedPattern = checkedPattern.originPattern
 
+                if not name:
+                    return None
                 assert False, "no origin pattern found"
 
             self.originPattern = findOriginPatternInParent(
-- 
2.43.0


From ed3db5cbf175a3c8dee880a196cb493526e9da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 79/82] fix: search files whose folder or suffix has wildcard
 characters

---
 gsapi/gsutil.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 84d1d21..064be35 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -120,7 +120,6 @@ def search_files(path, suffix=None):
 
     """
     import os
-    import glob
 
     # determine the files
     if isinstance(path, list):
@@ -131,14 +130,13 @@ def search_files(path, suffix=None):
             file_list.extend(search_files(f, suffix))
     elif os.path.isdir(path):
         # use all files in the given path
-        if suffix is None:
-            file_list = glob.glob("%s/*" % path)
-        elif isinstance(suffix, list):
-            file_list = []
-            for s in suffix:
-                file_list.extend(glob.glob("%s/*%s" % (path, s)))
-        else:
-            file_list = glob.glob("%s/*%s" % (path, suffix))
+        # (names and suffixes are taken literally, hidden files are left out)
+        names = [f for f in os.listdir(path) if not f.startswith('.')]
+        if isinstance(suffix, list):
+            names = [f for f in names if f.endswith(tuple(suffix))]
+        elif suffix is not None:
+            names = [f for f in names if f.endswith(suffix)]
+        file_list = ["%s/%s" % (path, f) for f in names]
     elif os.path.isfile(path):
         file_list = []
         # no matching needed
-- 
2.43.0


From 8249c8de89e93ddc4cf7036a415d58ac1ecf6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 80/82] fix: never sample an index of probability zero

---
 gsapi/bassmine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index 893d7e7..b858cf3 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -53,8 +53,9 @@ def pdf_sampling(n):  # variable argument list
     x = random.random()
     f = 0
     for i in range(1, len(n) + 1):
+        if n[i - 1] > 0:
+            f = i - 1  # rounded sums may stay below x: keep the last possible one
         if x < sum(n[0:i]):
-            f = i - 1
             break
     return f
 
-- 
2.43.0


From d5450ab1eca134783f49794d198c16b34659f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 81/82] fix: write MIDI times at the nearest tick

---
 gsapi/gsio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 0e2c6bb..a617c50 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -348,8 +348,8 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     beatToTick = pattern.resolution
     # in time order, so that a note ends before the next one of its pitch starts
     for e in sorted(myPattern.events, key=lambda e: e.startTime):
-        startTick = int(beatToTick * e.startTime)
-        endTick = int(beatToTick * e.endTime())
+        startTick = int(math.floor(beatToTick * e.startTime + 0.5))
+        endTick = int(math.floor(beatToTick * e.endTime() + 0.5))
         # pitch = e.pitch
         channel = 1
         if isinstance(midiMap, dict) and e.tag in midiMap:
@@ -362,7 +362,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
         track.append(midiio.NoteOffEvent(tick=endTick, velocity=e.velocity, pitch=pitch, channel=channel))
 
     # and the "End of Track" Event
-    track.append(midiio.EndOfTrackEvent(tick=int(myPattern.duration * beatToTick)))
+    track.append(midiio.EndOfTrackEvent(tick=int(math.floor(myPattern.duration * beatToTick + 0.5))))
 
     # make tick relatives
     track.sort(key=lambda e: e.tick)
-- 
2.43.0


From 7a4cbc39149cfe6699d65c3caad7685b89ff4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:05 +0000
Subject: [PATCH 82/82] fix: take notes that start before time 0 into vertical
 slices

The markers for "no onset yet" were the time -1, so that notes at or before
it made no slice per event and no chord.
---
 gsapi/gspattern.py      | 4 ++--
 gsapi/gstransformers.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index f693ddf..1d1073e 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -585,10 +585,10 @@ class Pattern(object):
                 patternsList = originPattern.splitInEqualLengthPatterns(step)
 
             elif sliceType == "perEvent":
-                lastTime = -1
+                lastTime = None
                 patternsList = []
                 for consideredEvent in sorted(originPattern.events, key=lambda e: e.startTime):
-                    if lastTime < consideredEvent.startTime:  # group all identical startTimeEvents
+                    if lastTime is None or lastTime < consideredEvent.startTime:  # group all identical startTimeEvents
                         pattern = originPattern.copyWithoutEvents()
                         pattern.startTime = consideredEvent.startTime
                         pattern.events = originPattern.activeEventsAtTime(
diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 3c9436a..226ea57 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -264,7 +264,7 @@ class Chordify(BaseTransformer):
     def transformPattern(self):
         """Return a transformed Pattern"""
         self.outputPattern = self.inputPattern.copyWithoutEvents()
-        p = -1
+        p = None
         for e in sorted(self.inputPattern.events, key=lambda e: e.startTime):
             if e.startTime != p:
                 new_chord = EventChord(startTime=e.startTime, duration=e.duration, components=[], tag=())
-- 
2.43.0

