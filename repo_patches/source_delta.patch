From c144046654ebfbefe1f9a92ad4690e722bbadc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 01/55] fix: corpus must not replace an empty cache with a new
 in-memory one

---
 sbclassifier/corpora/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..e40ed03 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,10 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        # An empty cache is falsy, so compare with None explicitly.
+        if cache is None:
+            cache = NaiveCache(max_size=INFINITY)
+        self.message_cache = cache
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From 3e2257f3a4f0dc96156725bb0f06fa66332a7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 02/55] fix: replacing a cached entry must not evict other
 entries

---
 sbclassifier/corpora/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..bf306d3 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -89,7 +89,8 @@ class NaiveCache(Cache):
         logging.debug('Caching %s', key)
         self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self._keys:
+            self._keys.append(key)
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From 7b20e8f26072718e4ac15781f0586baf5464f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 03/55] fix: evicting a message from memory must not delete its
 file

---
 sbclassifier/corpora/caches.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index bf306d3..97f9f77 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -95,12 +95,12 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            self._flush(key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
 
-    def pop(self, key):
+    def _flush(self, key):
         logging.debug('Flushing %s from cache', key)
         try:
             ki = self._keys.index(key)
@@ -111,6 +111,9 @@ class NaiveCache(Cache):
         # TODO should this set the key to None, or remove it entirely?
         return self.data.pop(key, None)
 
+    def pop(self, key):
+        return self._flush(key)
+
 
 class FileCache(NaiveCache):
     # This is essentially a two-level cache: one level is the dictionary in
-- 
2.43.0


From eab1aaf6d2113491e895bd677eca31ff359164c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 04/55] fix: length of a directory cache must follow additions
 and removals

---
 sbclassifier/corpora/caches.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 97f9f77..4982d8c 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -124,9 +124,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -136,7 +133,7 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        return len(list(iter(self)))
 
     def __iter__(self):
         return self.keys()
-- 
2.43.0


From 0588a3cdcc7546f711623d182bab40ff7cd33688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 05/55] fix: a message read back from a directory must have its
 id

---
 sbclassifier/corpora/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 4982d8c..2c1598e 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -142,7 +142,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
-- 
2.43.0


From 7ca2aacdf0253bfadeb72cde4b30dc8cbe1f1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/55] fix: caches lack the items() method that Corpus.items()
 calls

---
 sbclassifier/corpora/caches.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 2c1598e..addae6b 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -40,6 +40,9 @@ class Cache:
     def values(self):
         raise NotImplemented
 
+    def items(self):
+        raise NotImplemented
+
     def put(self, key, value):
         raise NotImplemented
 
@@ -85,6 +88,9 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         self.data[key] = value
@@ -152,6 +158,9 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self[f]) for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
-- 
2.43.0


From f5467f1e6f067d1eca99704a91c6bcd2252e6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 07/55] fix: repr of a directory corpus raises AttributeError

---
 sbclassifier/corpora/filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..239bab3 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -61,13 +61,14 @@ VERBOSE = True
 class FileCorpus(Corpus):
 
     def __init__(self, directory, namefilter='*', cache_size=256):
+        self.directory = directory
         cache = FileCache(directory, namefilter, max_size=cache_size)
         super().__init__(cache=cache)
 
     def __repr__(self):
         nummsgs = len(self)
         s = 's' if nummsgs != 1 else ''
-        lst = ', {}'.format(self.keys()) if VERBOSE and nummsgs > 0 else ''
+        lst = ', {}'.format(list(self.keys())) if VERBOSE and nummsgs > 0 else ''
         return ('<{} object at {:8.8x}, directory: {},'
                 ' {} message{}{}>').format(self.__class__.__name__, id(self),
                                            self.directory, nummsgs, s, lst)
-- 
2.43.0


From 287e3977ca802131a74e17a851cc735c967dbf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 08/55] fix: directory corpus must not touch files outside its
 directory or filter

---
 sbclassifier/corpora/caches.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index addae6b..cdbba3b 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -131,6 +131,13 @@ class FileCache(NaiveCache):
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
 
+    def _check_key(self, key):
+        # Message IDs are used as file names; they must not name anything
+        # outside of the directory.
+        if (key in ('', os.curdir, os.pardir) or '\0' in key
+                or os.path.basename(key) != key):
+            raise ValueError('Message ID {!r} is not a file name'.format(key))
+
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
                 and fnmatch.fnmatch(filename, self.namefilter))
@@ -162,6 +169,7 @@ class FileCache(NaiveCache):
         return ((f, self[f]) for f in self.keys())
 
     def put(self, key, value):
+        self._check_key(key)
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
@@ -178,7 +186,10 @@ class FileCache(NaiveCache):
             return default
 
     def pop(self, key):
+        self._check_key(key)
         result = super().pop(key)
+        if not self._is_message(key):
+            return result
         logging.debug('Removing file %s', key)
         path = os.path.join(self.directory, key)
         try:
-- 
2.43.0


From f07c1ab5ef4b6efbadc36e8558b0f0c4d847d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 09/55] fix: expiry of directory corpora calls methods that do
 not exist

---
 sbclassifier/corpora/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 239bab3..8274b7d 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -96,11 +96,12 @@ class ExpiryFileCorpus(FileCorpus):
         # during the loop.
         for key in list(self.keys()):
             msg = self[key]
-            timestamp = msg.createTimestamp()
+            # The age of a message is the time since its file was written.
+            timestamp = os.path.getmtime(os.path.join(self.directory, key))
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                self.remove_message(msg, emit_signal=False)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
-- 
2.43.0


From 76687f02d7c8d16038aadfd6219459168375323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 10/55] fix: trainers must untrain messages removed from a
 corpus

---
 sbclassifier/trainers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..e1a752a 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
-- 
2.43.0


From 8e4f979f5b052eebd82a31097b028623c7a742a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 11/55] fix: trainers call a message method that does not exist

---
 sbclassifier/trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index e1a752a..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From 7bc6a055fff12ec22ab472631e30b969a70193bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 12/55] fix: remove_sb_headers swaps the subject and recipient
 notation flags

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..e77c399 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -558,7 +558,7 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(remove_subject_notations, remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From 4aac21981298d8f669470e022593657c218fe462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 13/55] fix: a message without an id must not get an id header
 with value None

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index e77c399..8645df7 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -451,7 +451,7 @@ class Message(_Message):
                         lineLength = 8
             self[headerName] = "".join(wrappedEvd)
 
-        if add_unique_id:
+        if add_unique_id and self.messageid is not None:
             self[MAILID_HEADER_NAME] = self.messageid
 
         self.add_notations(notate_to or (), notate_subject or ())
-- 
2.43.0


From 25888cb972930c64ed2aaa5afbd0d9cbcc8cf89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 14/55] fix: notations fail on or corrupt headers with 8-bit
 characters

---
 sbclassifier/message.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 8645df7..99d30f4 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -456,6 +456,14 @@ class Message(_Message):
 
         self.add_notations(notate_to or (), notate_subject or ())
 
+    def _raw_header(self, name):
+        # Unlike self[name], this is the stored text even if it contains
+        # undecoded 8-bit characters (then self[name] is a Header object).
+        for header_name, value in self.raw_items():
+            if header_name.lower() == name.lower():
+                return value
+        return None
+
     def add_notations(self, notate_to, notate_subject):
         """Add the appropriate string to the subject: and/or to: header.
 
@@ -480,7 +488,8 @@ class Message(_Message):
             # to an invalid address, and add that.
             address = "{}@spambayes.invalid".format(self.c.name)
             try:
-                self.replace_header("To", "{},{}".format(address, self["To"]))
+                self.replace_header("To", "{},{}".format(
+                    address, self._raw_header("To")))
             except KeyError:
                 self["To"] = address
 
@@ -488,8 +497,8 @@ class Message(_Message):
         #     notate_subject = (notate_subject,)
         if self.c in notate_subject:
             try:
-                self.replace_header("Subject", "%s,%s" % (self.c.name,
-                                                          self["Subject"]))
+                self.replace_header("Subject", "%s,%s" % (
+                    self.c.name, self._raw_header("Subject")))
             except KeyError:
                 self["Subject"] = self.c.name
 
@@ -507,7 +516,7 @@ class Message(_Message):
         See also [ 848365 ] Remove subject annotations from message review
                             page
         """
-        subject = self["Subject"]
+        subject = self._raw_header("Subject")
         if subject:
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
@@ -518,7 +527,7 @@ class Message(_Message):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
                         break
-        to = self["To"]
+        to = self._raw_header("To")
         if to:
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
-- 
2.43.0


From e0b5da95249da6b96da8d6c06ce171bf803fe299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 15/55] fix: exception header lands in the body of messages
 without a blank line

---
 sbclassifier/message.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 99d30f4..1bd0ba2 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -593,14 +593,18 @@ def insert_exception_header(string_msg, msg_id=None):
     # Insert the exception header, and optionally also insert the id header,
     # otherwise we might keep doing this message over and over again.
     # We also ensure that the line endings are /r/n as RFC822 requires.
-    try:
-        headers, body = re.split(r'\n\r?\n', string_msg, 1)
-    except ValueError:
+    separator = re.search(r'(?:^|\r\n|\r(?!\n)|\n)(?:\r\n|\r|\n)', string_msg)
+    if separator:
+        headers = string_msg[:separator.start()]
+        body = string_msg[separator.end():]
+    else:
         # No body - this is a bad message!
-        headers = string_msg
+        headers = string_msg.rstrip('\r\n')
         body = ""
+    if headers:
+        headers += "\r\n"
     header = re.sub(r'\r?\n', '\r\n', str(header))
-    headers += "\n%s: %s\r\n" % (headerName, header)
+    headers += "%s: %s\r\n" % (headerName, header)
     if msg_id:
         headers += "%s: %s\r\n" % \
                    (MAILID_HEADER_NAME, msg_id)
-- 
2.43.0


From a510a5c1480c1b2321d79e8d5231631457ef706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 16/55] fix: a carriage return in an exception text must not
 end the header

---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 1bd0ba2..bc36a84 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -585,7 +585,7 @@ def insert_exception_header(string_msg, msg_id=None):
 
     # Build the header.  This will strip leading whitespace from
     # the lines, so we add a leading space to maintain indentation.
-    detailLines = details.strip().split('\n')
+    detailLines = CRLF_RE.split(details.strip())
     spacedDetails = '\n '.join(detailLines)
     headerName = 'X-Spambayes-Exception'
     header = Header(spacedDetails, header_name=headerName)
-- 
2.43.0


From 22747f92c6b920909548506a248071b006efbbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 17/55] fix: training with bigrams loses the last word, and all
 bigrams of iterators

---
 sbclassifier/classifiers/basic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..b289144 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -339,6 +339,8 @@ class Classifier:
         removed, too.
 
         """
+        # The stream is read more than once, but it may be an iterator.
+        wordstream = list(wordstream)
         # For the sake of brevity, create an alias.
         chain = itertools.chain.from_iterable
         # Create an iterable of bigrams from `wordstream`.
@@ -347,7 +349,10 @@ class Classifier:
         to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
         # This interleaves the individual strings from `wordstream` with the
         # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        # The last word starts no bigram.
+        return itertools.chain(
+            chain(zip(wordstream, (to_string(x, y) for x, y in bigrams))),
+            wordstream[-1:])
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From 653e71561bcda0809ab337f374d1648663fcd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 18/55] fix: a failing word stream must not leave a message
 half trained

---
 sbclassifier/classifiers/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index b289144..12f8f05 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -443,13 +443,15 @@ class Classifier:
     # in a msg, but distorting spamprob doesn't appear a correct way to exploit
     # it.
     def _add_msg(self, wordstream, is_spam):
+        # Read the whole stream first: if it fails, nothing has changed.
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             self.nspam += 1
         else:
             self.nham += 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is None:
                 record = self.WordInfoClass()
@@ -464,6 +466,7 @@ class Classifier:
         self._post_training()
 
     def _remove_msg(self, wordstream, is_spam):
+        words = set(wordstream)
         self._probcache = {}    # nuke the prob cache
         if is_spam:
             if self.nspam <= 0:
@@ -474,7 +477,7 @@ class Classifier:
                 raise ValueError("non-spam count would go negative!")
             self.nham -= 1
 
-        for word in set(wordstream):
+        for word in words:
             record = self._wordinfoget(word)
             if record is not None:
                 if is_spam:
-- 
2.43.0


From 141bea60d74576ef78ebdf689b4ed54f7f773c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 19/55] fix: bigrams of bytes tokens must be bytes tokens

---
 sbclassifier/classifiers/basic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 12f8f05..17e1014 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -346,7 +346,7 @@ class Classifier:
         # Create an iterable of bigrams from `wordstream`.
         bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
         # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
+        to_string = self._bigram
         # This interleaves the individual strings from `wordstream` with the
         # string representation of the bigrams.
         # The last word starts no bigram.
@@ -354,6 +354,12 @@ class Classifier:
             chain(zip(wordstream, (to_string(x, y) for x, y in bigrams))),
             wordstream[-1:])
 
+    def _bigram(self, first, second):
+        # The tokenizer generates bytes, other clients may use strings.
+        if isinstance(first, bytes) and isinstance(second, bytes):
+            return b'bi:' + first + b' ' + second
+        return BIGRAM_FORMAT.format(first, second)
+
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
         given that the message contains a specific word.
@@ -538,7 +544,7 @@ class Classifier:
                 if i:   # not the 1st loop trip, so there is a preceding token
                     # This string interpolation must match the one in
                     # _enhance_wordstream().
-                    pair = BIGRAM_FORMAT.format(last_token, token)
+                    pair = self._bigram(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
                     if clue not in seen:    # as always, skip duplicates
-- 
2.43.0


From de5be113036d825c4d1b90b20eb6b6f00b127167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 20/55] fix: an unpickled classifier can neither learn nor
 score

---
 sbclassifier/classifiers/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 17e1014..c703711 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -188,12 +188,15 @@ class Classifier:
         self.nham = 0
 
     def __getstate__(self):
-        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham)
+        return (PICKLE_VERSION, self.wordinfo, self.nspam, self.nham,
+                self._use_bigrams)
 
     def __setstate__(self, t):
         if t[0] != PICKLE_VERSION:
             raise ValueError("Can't unpickle; version %s unknown".format(t[0]))
-        self.wordinfo, self.nspam, self.nham = t[1:]
+        self.wordinfo, self.nspam, self.nham = t[1:4]
+        # Older pickles do not say.
+        self._use_bigrams = t[4] if len(t) > 4 else USE_BIGRAMS
         self._probcache = {}
 
     # Implementation note: Across vectors of length n, containing random
-- 
2.43.0


From 19fe5ed4d29c2607666cfb4fe5d02347c953c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 21/55] fix: interrupted or failed pickle saves corrupt the
 file or leave temporary files

---
 sbclassifier/safepickle.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..2d95794 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -28,7 +28,16 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
-        # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
-            pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        # first, then move the data to the requested filename second. The
+        # temporary file is in the same directory, so that this is atomic.
+        directory = os.path.dirname(os.path.abspath(filename))
+        fp = NamedTemporaryFile(dir=directory, delete=False)
+        try:
+            with fp:
+                pickle.dump(value, fp, protocol)
+                fp.flush()
+                os.fsync(fp.fileno())
+            os.replace(fp.name, filename)
+        except:
+            os.remove(fp.name)
+            raise
-- 
2.43.0


From e71a8cf6816c404e7ab0248a35332c15fe984204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 22/55] fix: a damaged or locked pickle must not be taken for a
 new one

---
 sbclassifier/classifiers/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..8d2a86a 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -156,7 +156,7 @@ class PickleClassifier(StoredClassifierBase):
 
         try:
             tempbayes = pickle_read(self.filename)
-        except:
+        except FileNotFoundError:
             # new pickle
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
-- 
2.43.0


From 77bf4bee02a29ef43eb4a69a67db1a1f3471f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 23/55] fix: loading must discard word probabilities computed
 before

---
 sbclassifier/classifiers/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 8d2a86a..cd3d79f 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -162,6 +162,7 @@ class PickleClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+            self._probcache = {}
             return
 
         # Copy state from tempbayes.  The use of our base-class __setstate__ is
@@ -221,6 +222,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.wordinfo = {}
+        self._probcache = {}
         self.deleted_words = set()
         self.changed_words = set()
 
-- 
2.43.0


From d17063a854dba405ee5ba9151e38e936b8892f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 24/55] fix: a stored shelve must be on disk when store()
 returns

---
 sbclassifier/classifiers/storage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index cd3d79f..637d419 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -193,6 +193,7 @@ class ShelveClassifier(StoredClassifierBase):
         self.statekey = STATE_KEY
         self.flag = flag
         self.filename = filename
+        self.db = None
         self.load()
 
     def close(self):
@@ -207,6 +208,8 @@ class ShelveClassifier(StoredClassifierBase):
         #     self.db = shelve.Shelf(self.dbm)
         #
         # Does having a shelved DBM afford any benefit over just a shelf?
+        if self.db is not None:
+            self.db.close()
         self.db = shelve.open(self.filename, self.flag)
         if self.statekey in self.db:
             t = self.db[self.statekey]
@@ -254,6 +257,10 @@ class ShelveClassifier(StoredClassifierBase):
         # Update the global state, then do the actual save.
         self._write_state_key()
         self.db.sync()
+        if not hasattr(self.db.dict, 'sync'):
+            # This kind of database (dbm.ndbm) is only written when closed.
+            self.db.close()
+            self.db = shelve.open(self.filename, 'w')
 
     def _write_state_key(self):
         self.db[self.statekey] = (PICKLE_VERSION, self.nspam, self.nham)
-- 
2.43.0


From d708570d5effa6554447915b52838a9b9b718879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 25/55] fix: shelve classifier fails on bytes words and
 confuses some words with its state

---
 sbclassifier/classifiers/storage.py | 36 +++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 637d419..ee2d273 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -105,6 +105,29 @@ WORD_CHANGED = "C"
 
 STATE_KEY = 'saved state'
 
+# A word is either text or bytes. In a database, words and the state key share
+# one name space of text keys: most text words are their own key, other words
+# are marked by a leading NUL.
+
+
+def word_to_key(word):
+    """Returns the text key under which the specified word is stored."""
+    if isinstance(word, bytes):
+        return '\0b' + word.decode('latin-1')
+    if word == STATE_KEY or word.startswith('\0'):
+        return '\0s' + word
+    return word
+
+
+def key_to_word(key):
+    """Returns the word that is stored under the specified text key."""
+    if key.startswith('\0b'):
+        return key[2:].encode('latin-1')
+    if key.startswith('\0s'):
+        return key[2:]
+    return key
+
+
 # # Make shelve use binary pickles by default.
 # oldShelvePickler = shelve.Pickler
 
@@ -239,7 +262,7 @@ class ShelveClassifier(StoredClassifierBase):
         # the naive way.
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[word_to_key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -247,7 +270,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[word_to_key(word)]
             except KeyError:
                 pass
 
@@ -282,7 +305,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(word_to_key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -308,7 +331,7 @@ class ShelveClassifier(StoredClassifierBase):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[word_to_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
@@ -333,9 +356,8 @@ class ShelveClassifier(StoredClassifierBase):
         self.deleted_words.add(word)
 
     def _wordinfokeys(self):
-        wordinfokeys = list(self.db.keys())
-        del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        return [key_to_word(key) for key in self.db.keys()
+                if key != self.statekey]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From 85830aa45120236687a7205447b3f90edac7a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 26/55] fix: a shelve without classifier state must not be
 taken for a new one

---
 sbclassifier/classifiers/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index ee2d273..7c5b59a 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -237,11 +237,16 @@ class ShelveClassifier(StoredClassifierBase):
         if self.statekey in self.db:
             t = self.db[self.statekey]
             if t[0] != PICKLE_VERSION:
+                self.db.close()
                 msg = "Can't unpickle: version {} unknown".format(t[0])
                 raise ValueError(msg)
             self.nspam, self.nham = t[1:]
             logging.debug('%s is an existing database with %d spam and %d ham',
                           self.filename, self.nspam, self.nham)
+        elif len(self.db) > 0:
+            self.db.close()
+            raise ValueError('{} is not a classifier database'.format(
+                self.filename))
         else:
             # new database
             logging.debug('%s is a new database', self.filename)
-- 
2.43.0


From 5a907e0ae1f1720931f5c615eaa0e9c0adf198ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 27/55] fix: cdb fails on Python 3, where it must handle bytes

---
 sbclassifier/cdb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..5e8e364 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -23,6 +23,11 @@ def uint32_unpack(buf):
 def uint32_pack(n):
     return struct.pack('<L', n)
 
+
+def to_bytes(s):
+    """Keys and values are bytes; text is accepted and encoded as UTF-8."""
+    return s if isinstance(s, bytes) else bytes(s, 'utf-8')
+
 CDB_HASHSTART = 5381
 
 
@@ -30,7 +35,7 @@ def cdb_hash(buf):
     h = CDB_HASHSTART
     for c in buf:
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
@@ -110,6 +115,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +176,11 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key, value = to_bytes(key), to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From 13611a4c8e5d0c17768ffd886f76ec810c795735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 28/55] fix: a truncated cdb must not be read as a complete one

---
 sbclassifier/cdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 5e8e364..6895999 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -47,6 +47,9 @@ class Cdb(object):
         self.size = os.fstat(fd).st_size
         self.map = mmap.mmap(fd, self.size, access=mmap.ACCESS_READ)
         self.eod = uint32_unpack(self.map[:4])
+        if self.size < 2048 or not 2048 <= self.eod <= self.size:
+            self.map.close()
+            raise ValueError('not a complete cdb file')
         self.findstart()
         self.loop = 0  # number of hash slots searched under this key
         # initialized if loop is nonzero
-- 
2.43.0


From d0f6e31cdd6c3a53cc4508db6b0b71703b0077bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 29/55] fix: the CDB classifier can neither load nor store

---
 sbclassifier/classifiers/storage.py | 29 ++++++++++++++++-------------
 sbclassifier/safepickle.py          |  9 +++++++--
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 7c5b59a..2e6b24e 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -54,16 +54,10 @@ import shelve
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier import cdb
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
-
-try:
-    from cdb import cdb_read
-    from cdb import cdb_write
-    cdb_is_available = True
-except ImportError:
-    cdb_is_available = False
+from sbclassifier.safepickle import safe_write
 
 
 # A little magic.  We'd like to use ZODB as the default storage,
@@ -658,14 +652,21 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+            with open(self.filename, 'rb') as f:
+                db = cdb.Cdb(f)
+                data = {str(k, 'utf-8'): str(v, 'utf-8')
+                        for k, v in db.iteritems()}
+                db.close()
             self.nham, self.nspam = [int(i) for i in
                                      data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
+            def from_string(s):
+                ham, spam = [int(n) for n in s.split(',')]
+                return WordInfo(spam, ham)
+            self.wordinfo = {key_to_word(k): from_string(v)
+                             for k, v in data.items()
                              if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
@@ -674,12 +675,14 @@ class CDBClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+        self._probcache = {}
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-        items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
+        items.extend((word_to_key(word),
+                      '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        safe_write(self.filename, lambda f: cdb.cdb_make(f, items))
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 2d95794..a987aa8 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -26,15 +26,20 @@ def pickle_read(filename):
 
 def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
+    safe_write(filename, lambda fp: pickle.dump(value, fp, protocol))
+
+
+def safe_write(filename, dump):
+    """Store what ``dump(fp)`` writes without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
-        # Be as defensive as possible: dump the pickle data to a temporary file
+        # Be as defensive as possible: dump the data to a temporary file
         # first, then move the data to the requested filename second. The
         # temporary file is in the same directory, so that this is atomic.
         directory = os.path.dirname(os.path.abspath(filename))
         fp = NamedTemporaryFile(dir=directory, delete=False)
         try:
             with fp:
-                pickle.dump(value, fp, protocol)
+                dump(fp)
                 fp.flush()
                 os.fsync(fp.fileno())
             os.replace(fp.name, filename)
-- 
2.43.0


From be47af1c8dd3c7d8537c81d4d95ccf4c98f700b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 30/55] fix: tokenizing long words fails on Python 3

---
 sbclassifier/tokenizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..7703f36 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -808,7 +808,7 @@ def imageparts(msg):
     return [part for part in msg.walk()
             if part.get_content_type().startswith('image/')]
 
-has_highbit_char = re.compile(rb"[\x80-\xff]").search
+has_highbit_char = re.compile(r"[^\x00-\x7f]").search
 
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
@@ -861,6 +861,12 @@ punctuation_run_re = re.compile(r'\W+')
 
 
 def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
+    if isinstance(word, bytes):
+        # Words of the message body are bytes, one character each.
+        for t in tokenize_word(word.decode('latin-1'), _len, maxword):
+            yield t.encode('latin-1')
+        return
+
     n = _len(word)
     # Make sure this range matches in tokenize().
     if 3 <= n <= maxword:
@@ -872,7 +878,7 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
+        if n < 40 and '.' in word and word.count('@') == 1:
             p1, p2 = word.split('@')
             yield 'email name:' + p1
             yield 'email addr:' + p2
-- 
2.43.0


From dc1cda66c1d1f99a63a35afdafaf98e309e4f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 31/55] fix: tokenizing bodies with markup or entities fails on
 Python 3

---
 sbclassifier/tokenizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7703f36..8787fd3 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -995,7 +995,7 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+non_ascii_translate_tab = ''.join(non_ascii_translate_tab).encode('ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
@@ -1098,9 +1098,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return chr(int(m.group(1))).encode('utf-8')
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1536,7 +1536,7 @@ class Tokenizer:
                 text = text.translate(non_ascii_translate_tab)
 
             for t in find_html_virus_clues(text):
-                yield "virus:%s" % t
+                yield b"virus:" + t
 
             # Get rid of uuencoded sections, embedded URLs, <style gimmicks,
             # and HTML comments.
@@ -1551,7 +1551,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1559,7 +1559,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From 92724fd6ca29d0f088dace0fb7f34ca56e2ff969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 32/55] fix: tokenizing encoded or 8-bit headers fails on
 Python 3

---
 sbclassifier/strippers.py |  8 +++++---
 sbclassifier/tokenizer.py | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..b347c00 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -5,9 +5,10 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import email.utils
 import math
 import re
-import urllib
+import urllib.parse
 
 # Tell SpamBayes where to cache IP address lookup information.
 # Only comes into play if lookup_ip is enabled. The default
@@ -112,7 +113,8 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
-        yield 'content-type/type:' + x.lower()
+        yield ('content-type/type:' +
+               email.utils.collapse_rfc2231_value(x).lower())
 
     try:
         for x in msg.get_charsets(None):
@@ -126,7 +128,7 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 8787fd3..06e3a41 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -780,7 +780,13 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            if not isinstance(x, bytes):
+                try:
+                    # Undecoded bytes of 8-bit headers are surrogate escapes.
+                    x = bytes(x, 'utf-8', 'surrogateescape')
+                except UnicodeEncodeError:
+                    x = bytes(x, 'utf-8', 'replace')
+            yield x
     return converted_f
 
 
@@ -789,6 +795,19 @@ def convert_to_bytes(f):
 # and text/html part happen to have redundant content, it doesn't matter
 # to results, since training and scoring are done on the set of all
 # words in the msg, without regard to how many times a given word appears.
+def decode_chunk(chunk, charset):
+    """Returns the text of one of the chunks of a header as returned by
+    :func:`email.header.decode_header`.
+
+    """
+    if isinstance(chunk, bytes):
+        try:
+            return chunk.decode(charset or 'latin-1', 'replace')
+        except (LookupError, ValueError):
+            return chunk.decode('latin-1')
+    return chunk
+
+
 def textparts(msg):
     """Return a set of all msg parts with content maintype 'text'."""
     return set([part for part in msg.walk()
@@ -1178,7 +1197,7 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
+                    for w in subject_word_re.findall(str(v)):
                         for t in tokenize_word(w):
                             yield "%s:%s" % (k, t)
             if basic_header_tokenize_only:
@@ -1229,13 +1248,13 @@ class Tokenizer:
         try:
             subjcharsetlist = email.header.decode_header(x)
         except (binascii.Error, email.errors.HeaderParseError, ValueError):
-            subjcharsetlist = [(x, 'invalid')]
+            subjcharsetlist = [(str(x), 'invalid')]
         for x, subjcharset in subjcharsetlist:
             if subjcharset is not None:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
             # <= 2.3.4 and 2.4.0 (fixed in 2.5)
-            x = x.replace('\r', ' ')
+            x = decode_chunk(x, subjcharset).replace('\r', ' ')
             for w in subject_word_re.findall(x):
                 for t in tokenize_word(w):
                     yield 'subject:' + t
@@ -1267,6 +1286,7 @@ class Tokenizer:
                             ValueError):
                         subjcharsetlist = [(name, 'invalid')]
                     for name, charset in subjcharsetlist:
+                        name = decode_chunk(name, charset)
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
@@ -1354,7 +1374,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1364,7 +1384,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1374,7 +1394,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1395,7 +1415,7 @@ class Tokenizer:
 
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
-        msgid = msg.get("message-id", "")
+        msgid = str(msg.get("message-id", ""))
         m = message_id_re.match(msgid)
         if m:
             # looks okay, return the hostname
-- 
2.43.0


From c27814c600845bad82d889e3047d0562def2a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 33/55] fix: attachment and uuencode file names yield a bogus
 clue or fail on Python 3

---
 sbclassifier/strippers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index b347c00..2a5e37e 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -52,7 +52,9 @@ html_style_start_re = re.compile(rb"""
 
 urlsep_re = re.compile(rb"[;?:@&=+,$.]")
 
-fname_sep_re = re.compile(rb'[/\\:]')
+fname_sep_re = re.compile(r'[/\\:]')
+
+fname_piece_re = re.compile(r"[;?:@&=+,$.]")
 
 url_fancy_re = re.compile(rb"""
     \b                      # the preceeding character must not be alphanumeric
@@ -102,7 +104,7 @@ def crack_filename(fname):
     for component in components:
         if morethan1:
             yield "fname comp:" + component
-        pieces = urlsep_re.split(component)
+        pieces = fname_piece_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
                 yield "fname piece:" + piece
@@ -216,7 +218,7 @@ class UUencodeStripper(Stripper):
                           uuencode_end_re.search)
 
     def tokenize(self, m):
-        mode, fname = m.groups()
+        mode, fname = [g.decode('latin-1') for g in m.groups()]
         return (['uuencode mode:%s' % mode] +
                 ['uuencode:%s' % x for x in crack_filename(fname)])
 
-- 
2.43.0


From f8dea6c87d21bd83f30b63583e5811fe7a166d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 34/55] fix: punctuation after an URL must not become part of
 its clues

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 2a5e37e..e830bc2 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -303,7 +303,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
-- 
2.43.0


From f0b0c4bfc86cc17074e8f69aa86259468930e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 35/55] fix: picking apart URLs fails on Python 3

---
 sbclassifier/strippers.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index e830bc2..63296a9 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -236,19 +236,19 @@ class URLStripper(Stripper):
         proto, guts = m.groups()
         assert guts
         if proto is None:
-            if guts.lower().startswith("www"):
-                proto = "http"
-            elif guts.lower().startswith("ftp"):
-                proto = "ftp"
+            if guts.lower().startswith(b"www"):
+                proto = b"http"
+            elif guts.lower().startswith(b"ftp"):
+                proto = b"ftp"
             else:
-                proto = "unknown"
+                proto = b"unknown"
         tokens = [b"proto:" + proto]
         pushclue = tokens.append
 
         if X_PICK_APART_URLS:
-            url = proto + "://" + guts
+            url = (proto + b"://" + guts).decode('latin-1')
 
-            escapes = re.findall(r'%..', guts)
+            escapes = re.findall(r'%..', url)
             # roughly how many %nn escapes are there?
             if escapes:
                 pushclue("url:%%%d" % int(log2(len(escapes))))
@@ -260,8 +260,11 @@ class URLStripper(Stripper):
 
             # now remove any obfuscation and probe around a bit
             url = urllib.parse.unquote(url)
-            scheme, netloc, path, params, query, frag = \
-                urllib.parse.urlparse(url)
+            try:
+                scheme, netloc, path, params, query, frag = \
+                    urllib.parse.urlparse(url)
+            except ValueError:
+                scheme = netloc = ''
 
             if X_LOOKUP_IP:
                 ips = cache.lookup(netloc)
@@ -282,22 +285,24 @@ class URLStripper(Stripper):
             # appear in URLs (perhaps in a local bookmark you established),
             # and never in a URL you receive from an unsolicited email or
             # another website.
-            user_pwd, host_port = urllib.parse.splituser(netloc)
-            if user_pwd is not None:
+            user_pwd, has_user, host_port = netloc.rpartition('@')
+            if has_user:
                 pushclue("url:has user")
 
-            host, port = urllib.parse.splitport(host_port)
+            host, port = re.match(r'(?s)(.*?)(?::([0-9]*))?$',
+                                  host_port).groups()
             # web servers listening on non-standard ports are suspicious ...
-            if port is not None and (scheme == "http" and port != '80' or
+            if port and (scheme == "http" and port != '80' or
                                      scheme == "https" and port != '443'):
                     pushclue("url:non-standard %s port" % scheme)
 
             # ... as are web servers associated with raw ip addresses
-            if re.match("(\d+\.?){4,4}$", host) is not None:
+            if re.match(r"(\d+\.?){4,4}$", host) is not None:
                 pushclue("url:ip addr")
 
             # make sure we later tokenize the unobfuscated url bits
             proto, guts = url.split("://", 1)
+            guts = guts.encode('utf-8', 'replace')
 
         # Lose the trailing punctuation for casual embedding, like:
         #     The code is at http://mystuff.org/here?  Didn't resolve.
-- 
2.43.0


From 79f205a87cb89ce3b19e1ad2692debf45dae276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 36/55] fix: the tokenizer ignores its basic header options

---
 sbclassifier/tokenizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 06e3a41..c77da17 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1154,7 +1154,9 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
+        return itertools.chain(self.tokenize_headers(message,
+                                                     basic_header_tokenize,
+                                                     basic_header_tokenize_only),
                                self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
-- 
2.43.0


From 873e36f79d4510a5b963f093ed7be275aa19fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 37/55] fix: basic header tokenization skips none of the
 headers it should skip

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index c77da17..5ccb192 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -46,7 +46,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
-- 
2.43.0


From c7a106a857a4f805a666607ffe0f49a955eecc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 38/55] fix: absence of known headers is not recorded

---
 sbclassifier/tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 5ccb192..ce0ce8c 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1446,8 +1446,9 @@ class Tokenizer:
         for x in list(x2n.items()):
             yield "header:%s:%d" % x
         if RECORD_HEADER_ABSENCE:
-            for k in x2n:
-                if not k.lower() in SAFE_HEADERS:
+            present = [k.lower() for k in msg.keys()]
+            for k in SAFE_HEADERS:
+                if k not in present:
                     yield "noheader:" + k
 
     def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
-- 
2.43.0


From 506eae8011a5bbd5ed7c09a9876578a74916bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 39/55] fix: the order of tokens depends on the addresses of
 message parts

---
 sbclassifier/tokenizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index ce0ce8c..b760634 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -809,15 +809,15 @@ def decode_chunk(chunk, charset):
 
 
 def textparts(msg):
-    """Return a set of all msg parts with content maintype 'text'."""
-    return set([part for part in msg.walk()
-                if part.get_content_maintype() == 'text'])
+    """Return a list of all msg parts with content maintype 'text'."""
+    return [part for part in msg.walk()
+            if part.get_content_maintype() == 'text']
 
 
 def octetparts(msg):
-    """Return a set of all msg parts with type 'application/octet-stream'."""
-    return set([part for part in msg.walk()
-                if part.get_content_type() == 'application/octet-stream'])
+    """Return a list of all msg parts with type 'application/octet-stream'."""
+    return [part for part in msg.walk()
+            if part.get_content_type() == 'application/octet-stream']
 
 
 def imageparts(msg):
-- 
2.43.0


From e27be97a4b5b6a6404df1b3f3254abf03893f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 40/55] fix: tokenizing undecodable or binary parts fails on
 Python 3

---
 sbclassifier/tokenizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index b760634..d37334a 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1048,7 +1048,7 @@ def try_to_repair_damaged_base64(text):
         if m.group(1):
             # This line has a trailing '=' -- the base64 part is done.
             break
-    base64text = ''
+    base64text = b''
     if i:
         base64 = text[:i]
         try:
@@ -1056,7 +1056,7 @@ def try_to_repair_damaged_base64(text):
         except:
             # There's no point in tokenizing raw base64 gibberish.
             pass
-    return base64text + text[i:]
+    return base64text + text[i:].encode('utf-8', 'replace')
 
 
 def breakdown_host(host):
@@ -1500,7 +1500,9 @@ class Tokenizer:
                     yield "control: octet payload is None"
                     continue
 
-                yield "octet:%s" % text[:OCTET_PREFIX_SIZE]
+                if isinstance(text, str):
+                    text = text.encode('utf-8', 'replace')
+                yield b"octet:" + text[:OCTET_PREFIX_SIZE]
 
         parts = imageparts(msg)
         if IMAGE_SIZE:
-- 
2.43.0


From 452f30395fdf1306e20dd37c78581e71ad6d9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 41/55] fix: subnets() ignores its list of prefix lengths

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From e0a69cec7ea21fed08d079d5b44bcb480e1c48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 42/55] fix: a failing name lookup raises an error instead of
 returning nothing

---
 sbclassifier/dnsutils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 38b050e..5f7b89d 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -10,11 +10,13 @@ DEFAULT_TIMEOUT = 10
 def timed(f):
     @functools.wraps(f)
     def timed_f(*args, **kw):
+        old_timeout = socket.getdefaulttimeout()
         try:
-            old_timeout = socket.getdefaulttimeout()
             socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except socket.timeout:
+        except (OSError, UnicodeError):
+            # Timeouts and failures are OSErrors. A name that cannot be
+            # encoded for a lookup is a UnicodeError.
             return ()
         finally:
             socket.setdefaulttimeout(old_timeout)
@@ -40,10 +42,7 @@ class memoize(dict):
 #@memoize
 @timed
 def reverse_dns_lookup(address):
-    try:
-        return (socket.gethostbyaddr(address)[0], )
-    except socket.herror:
-        return ()
+    return (socket.gethostbyaddr(address)[0], )
 
 
 #@memoize
-- 
2.43.0


From abcb3afc699066dd05c29c8d5ab07cae27719dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 43/55] fix: mining NNTP-Posting-Host headers fails and ignores
 all but one of them

---
 sbclassifier/tokenizer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index d37334a..a4055e2 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1604,14 +1604,18 @@ class Tokenizer:
 def mine_nntp(msg):
     nntp_headers = msg.get_all("nntp-posting-host", ())
     for address in nntp_headers:
+        address = str(address).strip()
         # Determine if the address is an IP address or a host name.
         try:
-            address = ipaddress.ip_address(address)
-            # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
+            ipaddress.ip_address(address)
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            clues = clues_from_domainname(address)
+        else:
+            # If we have reached this point, then we have an IP address.
+            clues = clues_from_ipaddress(address)
+        for clue in clues:
+            yield clue
 
 
 def top_two(name):
@@ -1627,7 +1631,8 @@ def top_two(name):
 
 
 def clues_from_ipaddress(address):
-    ip_clues = gen_dotted_quad_clues('nntp-host', address)
+    # Networks have no scope (as in fe80::1%eth0).
+    ip_clues = gen_dotted_quad_clues('nntp-host', address.partition('%')[0])
     names = reverse_dns_lookup(address)
     host_clues = []
     if names:
@@ -1640,14 +1645,15 @@ def clues_from_ipaddress(address):
 def clues_from_domainname(name):
     host_clues = ['nntp-host-name:{}'.format(name),
                   'nntp-host-domain:{}'.format(top_two(name))]
-    addresses = dns_lookup(name)
+    addresses = sorted(dns_lookup(name))
     ip_clues = []
     if addresses:
         # For the sake of brevity, rename this function.
         chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
+        ip_clues = list(chain(gen_dotted_quad_clues('nntp-host-ip',
+                                                    address.partition('%')[0])
+                              for address in addresses))
+        if name in reverse_dns_lookup(addresses[0]):
             ip_clues.append('nntp-host-ip:has-reverse')
     return itertools.chain(host_clues, ip_clues)
 
-- 
2.43.0


From 1b785ee819e34bcd15cac0f2eaf7f4e7ad55316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 44/55] fix: a message that cannot be stored must not be cached
 or truncate a file

---
 sbclassifier/corpora/caches.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index cdbba3b..65d7c75 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -174,10 +174,12 @@ class FileCache(NaiveCache):
             msg = 'Message {} does not match filter {}'.format(key,
                                                                self.namefilter)
             raise ValueError(msg)
-        super().put(key, value)
         logging.debug('Storing %s to file', key)
+        # If this fails, nothing has changed.
+        content = value.as_bytes()
         with open(os.path.join(self.directory, key), 'wb') as f:
-            f.write(value.as_bytes())
+            f.write(content)
+        super().put(key, value)
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From b43556ecbd1330ed96751ce57b465b765c52f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 45/55] fix: the link-following classifier can neither score
 nor follow links

---
 sbclassifier/classifiers/slurping.py | 120 ++++++++++++++++-----------
 1 file changed, 71 insertions(+), 49 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..93dc3f0 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
+from email import message_from_bytes
+import hashlib
 import itertools
 import logging
 import os
@@ -19,6 +20,7 @@ from sbclassifier.classifiers.basic import MAX_DISCRIMINATORS
 from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
+from sbclassifier.message import from_bytes
 #from sbclassifier.corpora.filesystem import FileMessageFactory
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
@@ -26,7 +28,6 @@ from sbclassifier.tokenizer import tokenize
 from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
-HTTP_ERROR_RE = re.compile(r"HTTP Error ([\d]+)")
 URL_KEY_RE = re.compile(r"[\W]")
 
 #: The username to give to the HTTP proxy when required.  If a username is
@@ -110,7 +111,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
@@ -136,6 +137,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -148,14 +150,14 @@ class SlurpingURLStripper(URLStripper):
         #     return tokens
 
         proto, guts = m.groups()
-        if proto != "http":
+        if proto != b"http":
             return tokens
 
         assert guts
-        while guts and guts[-1] in '.:;?!/)':
-            guts = guts[:-1]
+        guts = guts.decode('latin-1').rstrip('.:;?!/)')
 
-        slurp_wordstream = (proto, guts)
+        global slurp_wordstream
+        slurp_wordstream = (proto.decode('latin-1'), guts)
         return tokens
 
 
@@ -171,11 +173,12 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        # (The first two clues are the indications of ham and spam.)
+        needs_to_slurp = (len(clues) - 2 < MAX_DISCRIMINATORS
+                          and is_unsure(prob) and slurp_wordstream)
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
-            slurp_tokens.extend([w for (w, _p) in clues])
+            slurp_tokens.extend([w for (w, _p) in clues[2:]])
             sprob, sclues = super().spamprob(slurp_tokens, True)
             if not is_unsure(sprob):
                 prob = sprob
@@ -185,12 +188,15 @@ class SlurpingClassifier(Classifier):
         return prob
 
     def learn(self, wordstream, is_spam):
+        # Generating the words may find the URL to follow.
+        wordstream = list(wordstream)
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
         wordstream = itertools.chain(wordstream, self._generate_slurp())
         self._add_msg(wordstream, is_spam)
 
     def unlearn(self, wordstream, is_spam):
+        wordstream = list(wordstream)
         if self._use_bigrams:
             wordstream = self._enhance_wordstream(wordstream)
         wordstream = itertools.chain(wordstream, self._generate_slurp())
@@ -199,17 +205,23 @@ class SlurpingClassifier(Classifier):
     def _generate_slurp(self):
         # We don't want to do this recursively and check URLs
         # on webpages, so we have this little cheat.
+        global slurp_wordstream
+        if not slurp_wordstream:
+            return []
         if not hasattr(self, "setup_done"):
             self.setup()
             self.setup_done = True
         if not hasattr(self, "do_slurp") or self.do_slurp:
-            if slurp_wordstream:
-                self.do_slurp = False
-
+            original = slurp_wordstream
+            self.do_slurp = False
+            try:
                 tokens = self.slurp(*slurp_wordstream)
+            finally:
                 self.do_slurp = True
-                self._save_caches()
-                return tokens
+                # Tokenizing the page may have found other URLs.
+                slurp_wordstream = original
+            self._save_caches()
+            return tokens
         return []
 
     def setup(self):
@@ -221,9 +233,9 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        self.urlCorpus = ExpiryFileCorpus(age, dir, '*.url', cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
@@ -231,7 +243,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.bad_url_cache_name):
             try:
                 self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.warning("Bad URL pickle, using new.")
@@ -246,7 +258,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.http_error_cache_name):
             try:
                 self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.debug("Bad HHTP error pickle, using new.")
@@ -280,7 +292,7 @@ class SlurpingClassifier(Classifier):
         # If there is no content in the URL, then just return immediately.
         # "http://)" will trigger this.
         if not url:
-            return ["url:non_resolving"]
+            return [b"url:non_resolving"]
 
         if X_ONLY_SLURP_BASE:
             url = base_url(url)
@@ -288,26 +300,30 @@ class SlurpingClassifier(Classifier):
         # Check the unretrievable caches
         for err in self.bad_urls.keys():
             if url in self.bad_urls[err]:
-                return [err]
+                return [err.encode('ascii')]
         if url in self.http_error_urls:
-            return self.http_error_urls[url]
+            return [self.http_error_urls[url].encode('ascii')]
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
-        domain = mo.group(1)
-        if mo.group(3) is None:
-            port = 80
-        else:
-            port = mo.group(3)
         try:
+            if mo is None:
+                raise ValueError('no domain in {!r}'.format(url))
+            domain = mo.group(1)
+            if mo.group(3) is None:
+                port = 80
+            else:
+                port = mo.group(3)
             socket.getaddrinfo(domain, port)
-        except OSError:
+        except (OSError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
-            return ["url:non_resolving"]
+            return [b"url:non_resolving"]
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
-        url_key = URL_KEY_RE.sub('_', url)
+        # (Different URLs may look alike then, or be too long for a file name.)
+        digest = hashlib.sha1(url.encode('utf-8')).hexdigest()
+        url_key = '{}_{}.url'.format(URL_KEY_RE.sub('_', url)[:50], digest)
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
@@ -317,44 +333,50 @@ class SlurpingClassifier(Classifier):
             parts = url.split('.')
             if parts[-1] in ('jpg', 'gif', 'png', 'css', 'js'):
                 self.bad_urls["url:non_html"] += (url,)
-                return ["url:non_html"]
+                return [b"url:non_html"]
 
             url_with_proto = '{}://{}'.format(proto, url)
-            proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
-                          PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = None
+            if PROXY_SERVER:
+                proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
+                              PROXY_PORT)
+                proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
                                  timeout=REQUEST_TIMEOUTS)
-            except requests.exceptions.RequestException as exception:
-                mo = HTTP_ERROR_RE.match(str(exception))
-                if mo:
-                    self.http_error_urls[url] = "url:http_" + mo.group(1)
-                    return ["url:http_" + mo.group(1)]
+                f.raise_for_status()
+            except (requests.exceptions.RequestException,
+                    ValueError) as exception:
+                response = getattr(exception, 'response', None)
+                if response is not None:
+                    error = "url:http_{}".format(response.status_code)
+                    self.http_error_urls[url] = error
+                    return [error.encode('ascii')]
                 self.bad_urls["url:unknown_error"] += (url,)
-                return ["url:unknown_error"]
+                return [b"url:unknown_error"]
 
             # Anything that isn't text/html is ignored
             content_type = f.headers.get('content-type')
             if content_type is None or \
                not content_type.startswith("text/html"):
                 self.bad_urls["url:non_html"] += (url,)
-                return ["url:non_html"]
+                return [b"url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            headers = ''.join('{}: {}\r\n'.format(*header)
+                              for header in f.headers.items())
+            fake_message = (headers.encode('utf-8', 'surrogateescape')
+                            + b"\r\n" + f.content)
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
+            message = from_bytes(fake_message, message_id=url_key)
+            self.urlCorpus.add_message(message, emit_signal=False)
         else:
-            fake_message_string = cached_message.as_string()
+            fake_message = cached_message.as_bytes()
 
-        msg = message_from_string(fake_message_string)
+        msg = message_from_bytes(fake_message)
 
         tokens = tokenize(msg, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
-        return tokens
+        return [X_WEB_PREFIX.encode('utf-8') + tok for tok in tokens]
-- 
2.43.0


From 8c45bec5a351ff89ad5c9edc3abfabeaa23ef164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 46/55] fix: some shelves lose the empty word

---
 sbclassifier/classifiers/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2e6b24e..f5367a2 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -101,14 +101,14 @@ STATE_KEY = 'saved state'
 
 # A word is either text or bytes. In a database, words and the state key share
 # one name space of text keys: most text words are their own key, other words
-# are marked by a leading NUL.
+# are marked by a leading NUL. (Berkeley DB files may lose empty keys.)
 
 
 def word_to_key(word):
     """Returns the text key under which the specified word is stored."""
     if isinstance(word, bytes):
         return '\0b' + word.decode('latin-1')
-    if word == STATE_KEY or word.startswith('\0'):
+    if word in ('', STATE_KEY) or word.startswith('\0'):
         return '\0s' + word
     return word
 
-- 
2.43.0


From adffc5368d6df67346c84cc943aab58f7e8220f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 47/55] fix: an inaccessible constant database must not be
 taken for a new one

---
 sbclassifier/classifiers/storage.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index f5367a2..47e4bc4 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -46,7 +46,6 @@ __credits__ = "All the spambayes contributors."
 
 # import dbm.gnu
 import logging
-import os
 # import time
 # import tempfile
 # import errno
@@ -651,8 +650,12 @@ class CDBClassifier(StoredClassifierBase):
     #     return s
 
     def load(self):
-        if os.path.exists(self.filename):
-            with open(self.filename, 'rb') as f:
+        try:
+            f = open(self.filename, 'rb')
+        except FileNotFoundError:
+            f = None
+        if f is not None:
+            with f:
                 db = cdb.Cdb(f)
                 data = {str(k, 'utf-8'): str(v, 'utf-8')
                         for k, v in db.iteritems()}
-- 
2.43.0


From a9148379ba1c5663e7a87b18cdbea122a6c2a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 48/55] fix: writing an 8-bit message as text fails

---
 sbclassifier/message.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index bc36a84..ec97248 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -72,6 +72,7 @@ To Do:
 __author__ = "Tim Stone <tim@fourstonesExpressions.com>"
 __credits__ = "Mark Hammond, Tony Meyer, all the spambayes contributors."
 
+from copy import deepcopy
 import email
 from email.generator import Generator
 from email.header import Header
@@ -324,6 +325,14 @@ class Message(_Message):
     def __setstate__(self, t):
         (self.messageid, self.c, self.t) = t
 
+    def __deepcopy__(self, memo):
+        # Unlike the pickled state, a copy has the headers and payload (the
+        # email package copies messages with 8-bit content to write them).
+        result = self.__class__.__new__(self.__class__)
+        memo[id(self)] = result
+        result.__dict__.update(deepcopy(self.__dict__, memo))
+        return result
+
     # def setPayload(self, payload):
     #     """DEPRECATED.
     #     """
-- 
2.43.0


From 0200133ea3087563b3b27b56fa4f36da8dc4d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 49/55] fix: reverse lookup of a name with a null character
 raises TypeError

---
 sbclassifier/dnsutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 5f7b89d..6931f1b 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -14,9 +14,10 @@ def timed(f):
         try:
             socket.setdefaulttimeout(DEFAULT_TIMEOUT)
             return f(*args, **kw)
-        except (OSError, UnicodeError):
+        except (OSError, ValueError, TypeError):
             # Timeouts and failures are OSErrors. A name that cannot be
-            # encoded for a lookup is a UnicodeError.
+            # encoded for a lookup is a UnicodeError, one with a null
+            # character a TypeError or ValueError.
             return ()
         finally:
             socket.setdefaulttimeout(old_timeout)
-- 
2.43.0


From da8dc9bfefb84528081dd9f3fcdc1a3ec8c10b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 50/55] fix: the link of the previous message is followed for a
 message without text

---
 sbclassifier/tokenizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index a4055e2..e5e9105 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1533,6 +1533,10 @@ class Tokenizer:
             for t in self.tokenize_text(text):
                 yield t
 
+        # A message without text has no URLs either. (The URL stripper may
+        # remember those of the last text it has seen.)
+        crack_urls(b'')
+
         # Find, decode (base64, qp), and tokenize textual parts of the body.
         for part in textparts(msg):
             # Decode, or take it as-is if decoding fails.
-- 
2.43.0


From e99050c27eaea4e9c6ba23b703ac5258d6b23d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 51/55] fix: a message with both text and byte words can be
 scored

---
 sbclassifier/classifiers/basic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index c703711..3291a6c 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -557,7 +557,7 @@ class Classifier:
                             raw.append((tup, indices))
 
             # Sort raw, strongest to weakest spamprob.
-            raw.sort(reverse=True)
+            raw.sort(key=lambda item: self._clue_order(item[0]), reverse=True)
             # raw.reverse()
             # Fill clues with the strongest non-overlapping clues.
             clues = []
@@ -581,10 +581,11 @@ class Classifier:
             #     if tup[0] >= MINIMUM_PROB_STRENGTH:
             #         clues.append(tup)
             # clues.sort()
-            clues = sorted(tup for tup in
-                           (self._worddistanceget(word)
-                            for word in set(wordstream))
-                           if tup[0] >= MINIMUM_PROB_STRENGTH)
+            clues = sorted((tup for tup in
+                            (self._worddistanceget(word)
+                             for word in set(wordstream))
+                            if tup[0] >= MINIMUM_PROB_STRENGTH),
+                           key=self._clue_order)
 
         # If there are too many clues, remove the first few.
         if len(clues) > MAX_DISCRIMINATORS:
@@ -593,6 +594,11 @@ class Classifier:
         # Return (prob, word, record).
         return [t[1:] for t in clues]
 
+    def _clue_order(self, clue):
+        # Text and bytes do not compare with each other.
+        distance, prob, word, _record = clue
+        return distance, prob, isinstance(word, bytes), word
+
     def _worddistanceget(self, word):
         record = self._wordinfoget(word)
         if record is None:
-- 
2.43.0


From fb7bc091e21cde1a10e9fcf00046597a5a0fcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 52/55] fix: long header lines are not folded when a message is
 stored

---
 sbclassifier/message.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index ec97248..dcf0648 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -267,6 +267,13 @@ class Message(_Message):
     # def tokenize(self):
     #     return tokenize(self)
 
+    def as_bytes(self, unixfrom=False, policy=None):
+        # Long header lines are left alone: the same message folded would
+        # have different tokens when it is read back.
+        if policy is None:
+            policy = self.policy.clone(max_line_length=0)
+        return super().as_bytes(unixfrom, policy)
+
     def as_string(self, unixfrom=False, mangle_from_=True):
         # The email package stores line endings in the "internal" Python
         # format ('\n').  It is up to whoever transmits that information to
-- 
2.43.0


From 8f9a19fb45ad87b5ed615db6c1bb685adc97ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 53/55] fix: make clues for each address that looking up a
 URL's host finds

gen_dotted_quad_clues takes one address; given the list that the lookup
returns, it raised ValueError.
---
 sbclassifier/strippers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 63296a9..0c6f026 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -271,8 +271,8 @@ class URLStripper(Stripper):
                 if not ips:
                     pushclue("url-ip:lookup error")
                 else:
-                    for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(clue)
+                    for ip in ips:
+                        tokens.extend(gen_dotted_quad_clues("url-ip", ip))
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
-- 
2.43.0


From 13f7c548d694d1c0d87add7db0b1223b0ba631cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 54/55] fix: reduce addresses with ports, queries or users, and
 IP addresses, to their base

With X_ONLY_SLURP_BASE, http://10.1.2.3/x was followed to 1.2.3, a port
counted as part of the top-level domain, and a query or user name without
a directory was kept.
---
 sbclassifier/classifiers/slurping.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 93dc3f0..6f639a4 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -117,13 +117,15 @@ def base_url(url):
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
     # would become http://massey.ac.nz and http://id.example.com
     # would become http://example.com
-    url += '/'
-    domain = url.split('/', 1)[0]
-    parts = domain.split('.')
-    if len(parts) > 2:
+    domain = re.split('[/?#]', url)[0].rpartition('@')[2]
+    host, colon, port = domain.partition(':')
+    parts = host.split('.')
+    # (An IP address has no base.)
+    if len(parts) > 2 and not parts[-1].isdigit():
         base_domain = parts[-2] + '.' + parts[-1]
         if len(parts[-1]) < 3:
             base_domain = parts[-3] + '.' + base_domain
+        base_domain += colon + port
     else:
         base_domain = domain
     return base_domain
-- 
2.43.0


From 38c9138bcc6eaabbcc637b37ce8b889dbc2384ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 55/55] fix: do not score a missing pair as a clue

With pairs of words, the pair that the first word does not complete was
looked up as the word None. With a minimum strength of 0, or another prior
probability, it counted as a clue or raised TypeError.
---
 sbclassifier/classifiers/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 3291a6c..d757af1 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -550,7 +550,9 @@ class Classifier:
                     pair = self._bigram(last_token, token)
                 last_token = token
                 for clue, indices in (token, (i,)), (pair, (i - 1, i)):
-                    if clue not in seen:    # as always, skip duplicates
+                    # As always, skip duplicates. (The first token is not
+                    # the second of a pair.)
+                    if clue is not None and clue not in seen:
                         seen.add(clue)
                         tup = self._worddistanceget(clue)
                         if tup[0] >= MINIMUM_PROB_STRENGTH:
-- 
2.43.0

