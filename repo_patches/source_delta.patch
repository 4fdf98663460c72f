From da28c6a17fd2653e7ce2507695d1e70dba34d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:32 +0000
Subject: [PATCH 001/144] fix: Find existing backups when the path is relative

get_backup_name() compared the absolute paths of directory entries with
the path as given. With a relative path nothing matched and the first
backup name was returned every time.
---
 scribbu/tagset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..a71e75e 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -219,7 +219,7 @@ namespace scribbu {
       using namespace std::filesystem;
 
       auto here = absolute(pth).parent_path();
-      auto prefix = pth.string();
+      auto prefix = absolute(pth).string();
       size_t nprefix = prefix.length();
 
       vector<path> entries;
-- 
2.43.0


From 00734de69a76ed2ad5e76d01baffb60cadf077fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:32 +0000
Subject: [PATCH 002/144] fix: Never delete an existing backup when rewriting a
 file

replace_tagset_copy() removed whatever already existed under the backup
name. Let the copy fail instead.
---
 scribbu/tagset.hh | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index a71e75e..8d34bd2 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -412,12 +412,9 @@ namespace scribbu {
 
       cp = detail::get_backup_name(pth);
 
-      // This is a race condition (`cp' could be created in between the call to
-      // `exists' and `copy'), but in that unlikely event the worst that will
-      // happen is the call to `copy' will fail.
-      if (fs::exists(cp)) {
-        fs::remove(cp);
-      }
+      // `cp' could be created in between the call to `get_backup_name' and
+      // `copy', but in that unlikely event the worst that will happen is the
+      // call to `copy' will fail.
 
       // WORKAROUND(boost): I should be able to call `fs::copy(pth, cp)' and
       // have it throw on failure. For reasons I have not yet figured out, doing
@@ -443,9 +440,6 @@ namespace scribbu {
         // `pth' off to a backup (if we haven't already)...
         if (cp.empty()) {
           cp = detail::get_backup_name(pth);
-          if (fs::exists(cp)) {
-            fs::remove(cp);
-          }
           fs::copy(pth, cp);
         }
         // remove the original...
-- 
2.43.0


From 23495a03164cbf289c376cca8b69e9280f092bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:32 +0000
Subject: [PATCH 003/144] fix: Report errors when writing tags to a new file

---
 scribbu/tagset.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 8d34bd2..4d59a0b 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -728,9 +728,11 @@ namespace scribbu {
     else if (!fs::exists(pth)) {
       // Special case-- output file does not exist
       std::ofstream ofs(pth, std::ofstream::binary);
+      ofs.exceptions(std::ios::eofbit | std::ios::failbit | std::ios::badbit);
       for ( ; p0 != p1; ++p0) {
         (*p0)->write(ofs, detail::compute_apply_unsync(unsync, **p0));
       }
+      ofs.close();
 
     }
     else {
-- 
2.43.0


From 65b490ca58a81a8dae87ca2e023edbae3c9edd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:32 +0000
Subject: [PATCH 004/144] fix: Report a failure to flush an appended ID3v1 tag

---
 scribbu/id3v1.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..c416f7b 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -569,4 +569,5 @@ scribbu::replace_id3v1(const fs::path &pth, const id3v1_tag &tag)
   std::ofstream ofs(pth, std::ofstream::binary|std::ofstream::app);
   ofs.exceptions(EXC_MASK);
   tag.write(ofs);
+  ofs.close();
 }
-- 
2.43.0


From a4fed6889a56aedad7d50a0071f456298024ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:40 +0000
Subject: [PATCH 005/144] fix: Check the first tag's padding whenever it
 shrinks

With fewer bytes to remove than there are tags the quotient is zero and
only the remainder is negative. The first tag's padding was then reduced
without checking that it has any, and wrapped around.
---
 scribbu/tagset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 4d59a0b..83eb095 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -657,7 +657,7 @@ namespace scribbu {
     ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
 
     size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
+    if (adj + mu < 0 && -(adj + mu) > pad) {
       throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
     }
     (*p0)->padding(pad + adj + mu);
-- 
2.43.0


From 844ed2931927f7c32f1eb2d7c7342447bfa02134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:20 +0000
Subject: [PATCH 006/144] fix: do not rewrite files when only printing tag
 clouds

`xtag --get' reported every tag with a tag cloud as modified, so the file
was rewritten although nothing had been changed.
---
 src/xtag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index a27c6f5..3f558b4 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -287,7 +287,7 @@ private:
       num_xtag++;
     } // End iteration over `tag''s frames.
 
-    bool upd = num_xtag != 0;
+    bool upd = !get_ && num_xtag != 0;
     if (!num_xtag && create_ && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
-- 
2.43.0


From c45bb33107d092e6bc006f3a784a572bf68b3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:20 +0000
Subject: [PATCH 007/144] fix: write changes the text command makes to ID3v1
 tags

set_text::process_v1 never counted its edits, so it always reported the
tag as unmodified and the new values were dropped.
---
 src/text.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/text.cc b/src/text.cc
index c673fcd..18ab291 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -237,12 +237,15 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
     switch (id) {
     case id3v2_text_frames::tit2:
       v1.set_title(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
       v1.set_artist(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
       v1.set_album(string());
+      ++num_deltas;
       break;
     default:
       // do nothing
@@ -254,12 +257,15 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
     switch (x.first) {
     case id3v2_text_frames::tit2:
       v1.set_title(x.second, enc_);
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
       v1.set_artist(x.second, enc_);
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
       v1.set_album(x.second, enc_);
+      ++num_deltas;
       break;
     default:
       // do nothing
-- 
2.43.0


From c1455608f74f426301eb78b617c3dbe6d9be7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:37 +0000
Subject: [PATCH 008/144] fix: throw OpenSSL errors by value

Three places threw a pointer to the exception, which no handler catches,
so a failing digest terminated the program.
---
 scribbu/scribbu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..3f3341b 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -241,12 +241,12 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
   EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
   if (! mdctx) {
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   if (! EVP_DigestInit_ex(mdctx, EVP_md5(), 0)) {
     EVP_MD_CTX_destroy(mdctx);
-    throw new openssl_error();
+    throw openssl_error();
   }
 
   for (std::streamsize nleft = tag - here; nleft > 0; ) {
@@ -256,7 +256,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
     is.read((char*)BUF, nbytes);
     if (! EVP_DigestUpdate(mdctx, BUF, nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
-      throw new openssl_error();
+      throw openssl_error();
     }
 
     nleft -= nbytes;
-- 
2.43.0


From f03833d1e4d6c6364ece9270ff56af2f106a0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:37 +0000
Subject: [PATCH 009/144] fix: report unsupported popm operations as exceptions

The enumerator itself was thrown, which is not derived from
std::exception and so ended the program instead of being reported.
---
 src/popm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 400ce6b..b6b2feb 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -463,7 +463,7 @@ std::unique_ptr<scribbu::id3v1_tag>
 set_pcnt_popm::create_v1(
     const std::vector<std::unique_ptr<scribbu::id3v2_tag>> &v2)
 {
-  throw unknown_op(unknown_op::create_v1_from_v2);
+  throw bad_operation(unknown_op::create_v1_from_v2);
 }
 
 /// Create a new ID3v1 tag when there are no other tags present
@@ -471,7 +471,7 @@ set_pcnt_popm::create_v1(
 std::unique_ptr<scribbu::id3v1_tag>
 set_pcnt_popm::create_v1()
 {
-  throw unknown_op(unknown_op::create_v1);
+  throw bad_operation(unknown_op::create_v1);
 }
 
 /// Create a new ID3v2 tag when there's an ID3v1 tag present
@@ -499,7 +499,7 @@ set_pcnt_popm::create_v2()
 bool
 set_pcnt_popm::process_v1(scribbu::id3v1_tag &v1)
 {
-  throw unknown_op(unknown_op::process_v1);
+  throw bad_operation(unknown_op::process_v1);
 }
 
 /// Process an ID3v2.2 tag
-- 
2.43.0


From e03e7f2425eb68233d2dcec298691a0c23a3929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:16 +0000
Subject: [PATCH 010/144] fix: give default-constructed frame identifiers a
 definite experimental flag

---
 scribbu/framesv2.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..e965641 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -262,7 +262,7 @@ namespace scribbu {
   class frame_id3
   {
   public:
-    frame_id3()
+    frame_id3(): experimental_(false)
     { id_[0] = id_[1] = id_[2] = 0; }
     frame_id3(unsigned char id0, unsigned char id1, unsigned char id2);
     frame_id3(const unsigned char id[3]);
@@ -308,7 +308,7 @@ namespace scribbu {
   class frame_id4
   {
   public:
-    frame_id4()
+    frame_id4(): experimental_(false)
     { id_[0] = id_[1] = id_[2] = id_[3] = 0; }
     frame_id4(unsigned char id0, unsigned char id1,
               unsigned char id2, unsigned char id3);
-- 
2.43.0


From 93d170388fa36a103147fd769a1fbf3cd4830dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:16 +0000
Subject: [PATCH 011/144] fix: initialise the cached false sync counts

---
 scribbu/framesv22.hh | 2 +-
 scribbu/framesv23.hh | 2 +-
 scribbu/id3v23.hh    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..dc85797 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -189,7 +189,7 @@ namespace scribbu {
 
   private:
     frame_id3 id_;
-    mutable std::size_t num_false_syncs_;
+    mutable std::size_t num_false_syncs_ = 0;
     mutable std::vector<unsigned char> cache_[2];
 
   }; // End class id3v2_2_frame.
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..0ca2f30 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -309,7 +309,7 @@ namespace scribbu {
     id_type                 enc_method_;
     id_type                 group_id_;
 
-    mutable std::size_t num_false_syncs_;
+    mutable std::size_t num_false_syncs_ = 0;
     mutable std::vector<unsigned char> cache_[2];
 
   }; // End class id3v2_3_plus_frame.
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..96dfcd8 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -185,7 +185,7 @@ namespace scribbu {
       std::size_t cbpad_;
       mutable boost::optional<std::uint32_t> crc_;
       mutable bool dirty_;
-      mutable std::size_t num_false_syncs_;
+      mutable std::size_t num_false_syncs_ = 0;
       mutable std::vector<unsigned char> cache_[2];
 
     };
-- 
2.43.0


From 248e37e51e3acdcc26f41297762156b99fc8a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:16 +0000
Subject: [PATCH 012/144] fix: keep all arguments when an ID3v2.4 frame is
 built from four characters

---
 scribbu/framesv24.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..0b74305 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -125,7 +125,10 @@ namespace scribbu {
                   bool unsynch,
                   const boost::optional<std::size_t> &dli):
       id3v2_3_plus_frame(frame_id4(id0, id1, id2, id3),
-                         tap, fap, ro, cmprsd, enc, gid)
+                         tap, fap, ro, cmprsd, enc, gid),
+      compressed_        (cmprsd),
+      unsynchronised_    (unsynch),
+      data_len_indicator_(dli)
     { }
     virtual id3v2_4_frame* clone() const = 0;
 
-- 
2.43.0


From 93fa76e5988c2c1900f8786bbd45a2bb695fea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:16 +0000
Subject: [PATCH 013/144] fix: remember version and encoding in comments built
 from text

---
 scribbu/framesv2.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..738f595 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -895,7 +895,8 @@ scribbu::comments::comments(id3v2_version ver,
                             const std::string &text,
                             encoding src,
                             use_unicode unicode,
-                            const std::string &dsc /*= std::string()*/)
+                            const std::string &dsc /*= std::string()*/):
+  ver_(ver)
 {
   if (language::from_locale == lang) {
     lang = language_from_locale();
@@ -950,6 +951,8 @@ scribbu::comments::comments(id3v2_version ver,
     }
   }
 
+  dst_enc_ = dst;
+
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
     description_ = convert_encoding(dsc, src, dst, add_bom);
-- 
2.43.0


From cf19d53f0b0b30c446ebb37350cf0fbc945d1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:16 +0000
Subject: [PATCH 014/144] fix: initialise comments and encryption methods read
 from truncated frames

---
 scribbu/framesv2.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index e965641..56817ff 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -530,7 +530,7 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1): method_symbol_(0) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
@@ -689,7 +689,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{ }
     {
       if (p0 != p1) {
 
-- 
2.43.0


From da71b9c250c0154fc782c3275a854d3aaa2845f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 015/144] fix: initialise the speed and track number of ID3v1
 tags

---
 scribbu/id3v1.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 56651f9..7b7e07a 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -623,9 +623,9 @@ namespace scribbu {
     std::vector<unsigned char>   ext_genre_;
     std::array<unsigned char, 6> start_time_;
     std::array<unsigned char, 6> end_time_;
-    unsigned char                speed_;
+    unsigned char                speed_ = 0;
     std::vector<unsigned char>   title_;
-    unsigned char                track_number_;
+    unsigned char                track_number_ = 0;
     std::array<unsigned char, 4> year_;
 
 
-- 
2.43.0


From 51305dfa5da2681fcc5e85683655a48efede581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 016/144] fix: initialise the version of a tag read from a
 stream without one

---
 scribbu/id3v2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d9a07b3..3af5004 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -407,7 +407,7 @@ scribbu::id3v2_tag::unknown_version::what() const noexcept
 ///////////////////////////////////////////////////////////////////////////////
 
 /// Initialize from the first five bytes of \a is
-scribbu::id3v2_tag::id3v2_tag(std::istream &is)
+scribbu::id3v2_tag::id3v2_tag(std::istream &is): version_(0), revision_(0)
 {
   static const unsigned int HALF_ID3V2_HEADER_SIZE = 5;
 
-- 
2.43.0


From 99dc56e348876cd8e1b895906ef603157822d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 017/144] fix: initialise default-constructed frame iterators
 and file descriptions

---
 scribbu/id3v2.hh   | 2 +-
 scribbu/scribbu.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0e96115..860d5a0 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -1062,7 +1062,7 @@ namespace scribbu {
       { return *(*this + i); }
 
     private:
-      tag_type *pown_;
+      tag_type *pown_ = nullptr;
 
     };
 
diff --git a/scribbu/scribbu.hh b/scribbu/scribbu.hh
index e688839..ef13050 100644
--- a/scribbu/scribbu.hh
+++ b/scribbu/scribbu.hh
@@ -184,7 +184,7 @@ namespace scribbu {
   private:
     std::filesystem::path parent_;
     std::filesystem::path filename_;
-    std::uintmax_t size_;
+    std::uintmax_t size_ = 0;
     std::optional<time_t> atime_;
     std::optional<time_t> mtime_;
     std::optional<time_t> ctime_;
-- 
2.43.0


From 1b3b302b9e11a71c08f4e2321c0eac7cc1c9f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 018/144] fix: honour the padding argument when creating an
 ID3v2.2 tag

---
 scribbu/id3v22.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..aeafba6 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,7 +95,8 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false):
+      id3v2_tag(2, 0), compression_(false), padding_(cbpad)
     { }
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
-- 
2.43.0


From 0869492245e6a9e8471b50eaf4f0740dddfa267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 019/144] fix: initialise the CRC and restrictions of ID3v2.4
 extended headers

---
 scribbu/id3v24.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..f72f0eb 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -184,8 +184,14 @@ scribbu::id3v2_4_tag::invalid_ext_header::what() const noexcept
 scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
                                              const unsigned char *p1):
   size_dirty_(false),
+  fcrc_      (false),
   crc_dirty_ (false),
-  fcrc_      (false)
+  crc_       (0),
+  tag_size_restriction_ (tag_size::restricted),
+  text_enc_restriction_ (false),
+  text_size_restriction_(text_size::unrestricted),
+  image_enc_restriction_(false),
+  image_sz_restriction_ (image_size::unrestricted)
 {
   using scribbu::detail::unsigned_from_sync_safe;
 
-- 
2.43.0


From 41e17daacf0f79e3a1e7114b35ca043be2f0223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 020/144] fix: give size and md5 template terms their defaults
 when options are partial

---
 scribbu/tbt-support.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 0492d9f..71c4382 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -603,8 +603,8 @@ namespace scribbu
                                    const id3v1_tag  * /*pid3v1*/) const;
 
     private:
-      base b_;
-      hex_case c_;
+      base b_ = base::decimal;
+      hex_case c_ = hex_case::lower;
     };
 
     class md5: public term
@@ -636,8 +636,8 @@ namespace scribbu
                                    const id3v1_tag  * /*pid3v1*/) const;
 
     private:
-      base b_;
-      hex_case c_;
+      base b_ = base::decimal;
+      hex_case c_ = hex_case::lower;
     };
 
 
-- 
2.43.0


From aa4ae806679c6f69a08030bb5d35375e0ba5d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:17 +0000
Subject: [PATCH 021/144] fix: initialise the settings of other formats in the
 dump command

---
 src/dump.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 2abfb3a..1c84f75 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -109,11 +109,11 @@ namespace {
     bool dump_id3v1_;
 
     // Standard settings
-    std::size_t indent_;
-    bool expand_genre_;
+    std::size_t indent_ = 0;
+    bool expand_genre_ = false;
 
     // Compact settings
-    std::size_t ncomm_;
+    std::size_t ncomm_ = 0;
 
     // Shared settings
     scribbu::encoding v1enc_;
-- 
2.43.0


From c385882b505ec724774bd2bbac31957d23eabf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:02 +0000
Subject: [PATCH 022/144] fix: report a count of zero for play counters without
 digits

---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 738f595..1c30494 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1077,7 +1077,7 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
+  uint32_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
@@ -1162,7 +1162,7 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
+  uint32_t x = 0;
   if (1 == counter_.size()) {
     x = counter_[0];
   }
-- 
2.43.0


From fd73db8830631fc707963c20ce39d1680090c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:02 +0000
Subject: [PATCH 023/144] fix: always return a genre from match_winamp_genre

---
 scribbu/winamp-genres.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index 007b727..92d4d42 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -583,7 +583,7 @@ scribbu::match_winamp_genre(const std::string &text)
   // OK-- `FKP' is initialized. Now iterate over all genres, comparing `wtext'
   // to each; return the match with minimal Damerau-Levenshtein distance.
   size_t least_dl = inf;
-  unsigned char best_genre;
+  unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
     size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
-- 
2.43.0


From e8a323c6c340e84b4475a0f8ce60a56b49c4bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:33 +0000
Subject: [PATCH 024/144] fix: do not return an uninitialised flag for numeric
 genres

---
 src/genre.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/genre.cc b/src/genre.cc
index d865dbe..6d84534 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -535,7 +535,7 @@ namespace {
       scratch |= 4;
     }
 
-    bool best_match;
+    bool best_match = false;
     string textual_genre;
 
     switch (scratch) {
-- 
2.43.0


From 797752780656ae21cea6b9474337e408784ffb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 025/144] fix: index ID3v2.2 frames by their type however they
 are added

Frames added through the base class interface were missing from the text,
comment, play count and popularimeter indices.
---
 scribbu/id3v22.cc | 46 +++++++++++++---------------------------------
 scribbu/id3v22.hh |  6 +-----
 2 files changed, 14 insertions(+), 38 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..7875c6b 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -729,44 +729,24 @@ scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t
 }
 
 void
-scribbu::id3v2_2_tag::add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx)
+scribbu::id3v2_2_tag::add_frame_to_lookups(id3v2_2_frame &frame, std::size_t idx)
 {
   using namespace std;
+  if (CNT *pcnt = dynamic_cast<CNT*>(&frame)) {
+    cnts_.push_back(make_pair(pcnt, idx));
+  }
+  else if (COM *pcom = dynamic_cast<COM*>(&frame)) {
+    coms_.push_back(make_pair(pcom, idx));
+  }
+  else if (POP *ppop = dynamic_cast<POP*>(&frame)) {
+    pops_.push_back(make_pair(ppop, idx));
+  }
+  else if (id3v2_2_text_frame *ptext = dynamic_cast<id3v2_2_text_frame*>(&frame)) {
+    text_map_.insert(make_pair(frame.id(), ptext));
+  }
   frame_map_.insert(make_pair(frame.id(), idx));
 }
 
-void
-scribbu::id3v2_2_tag::add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx)
-{
-  using namespace std;
-  text_map_.insert(make_pair(frame.id(), &frame));
-  add_frame_to_lookups((const id3v2_2_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_2_tag::add_frame_to_lookups(CNT &frame, std::size_t idx)
-{
-  using namespace std;
-  cnts_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_2_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_2_tag::add_frame_to_lookups(COM &frame, std::size_t idx)
-{
-  using namespace std;
-  coms_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_2_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_2_tag::add_frame_to_lookups(POP &frame, std::size_t idx)
-{
-  using namespace std;
-  pops_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_2_frame&)frame, idx);
-}
-
 
 ///////////////////////////////////////////////////////////////////////////////
 
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index aeafba6..2b63aae 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -532,11 +532,7 @@ namespace scribbu {
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
-    void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
-    void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
-    void add_frame_to_lookups(CNT &frame, std::size_t idx);
-    void add_frame_to_lookups(COM &frame, std::size_t idx);
-    void add_frame_to_lookups(POP &frame, std::size_t idx);
+    void add_frame_to_lookups(id3v2_2_frame &frame, std::size_t idx);
 
   public:
 
-- 
2.43.0


From ad253958d4499cc2a89660f8e003644cf8fd74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 026/144] fix: renumber ID3v2.2 lookups when frames are
 inserted or erased

The indices recorded for later frames were left as they were, and moving
through a frame proxy updated the wrong entries.
---
 scribbu/id3v22.cc | 84 ++++++++++++++++-------------------------------
 scribbu/id3v22.hh |  2 ++
 2 files changed, 31 insertions(+), 55 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 7875c6b..470431a 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -379,8 +379,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -392,35 +392,11 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
 
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -528,8 +504,7 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -541,11 +516,8 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -558,11 +530,8 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -575,11 +544,8 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -592,11 +558,8 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -655,20 +618,18 @@ scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -683,6 +644,19 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
   return os;
 }
 
+void
+scribbu::id3v2_2_tag::rebuild_lookups()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    add_frame_to_lookups(*frames_[i], i);
+  }
+}
+
 void
 scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
 {
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 2b63aae..cb5ddc6 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -529,6 +529,8 @@ namespace scribbu {
 
   private:
 
+    /// Bring our ancillary datastructures back in step with the frame vector
+    void rebuild_lookups();
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
-- 
2.43.0


From 6d9fa7244e8f32e81acbdcab48796c457139a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 027/144] fix: do not erase past the end of ID3v2.2 lookups

User-defined text frames and frames of an unknown layout are not in the
index their identifier suggests.
---
 scribbu/id3v22.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 470431a..de2522a 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -667,21 +667,27 @@ scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t
       std::find_if(coms_.begin(), coms_.end(),
                    [idx](const com_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    coms_.erase(p);
+    if (coms_.end() != p) {
+      coms_.erase(p);
+    }
   }
   else if (CNT == id) {
     cnt_frame_lookup_type::iterator p =
       std::find_if(cnts_.begin(), cnts_.end(),
                    [idx](const cnt_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    cnts_.erase(p);
+    if (cnts_.end() != p) {
+      cnts_.erase(p);
+    }
   }
   else if (POP == id) {
     pop_frame_lookup_type::iterator p =
       std::find_if(pops_.begin(), pops_.end(),
                    [idx](const pop_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    pops_.erase(p);
+    if (pops_.end() != p) {
+      pops_.erase(p);
+    }
   }
   else if (id.text_frame()) {
     const id3v2_2_frame *pf = frames_[idx].get();
@@ -689,10 +695,9 @@ scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t
       std::find_if(text_map_.begin(), text_map_.end(),
                    [pf, id](const text_frame_lookup_type::value_type &x)
                    { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
+    if (text_map_.end() != p) {
+      text_map_.erase(p);
     }
-    text_map_.erase(p);
   }
 
   frame_lookup_type::iterator pflu =
-- 
2.43.0


From a8ab4e50f2b202f4ad0d4dda0057d2e9f98043ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 028/144] fix: index ID3v2.3 frames by their type however they
 are added

Frames added through the base class interface were missing from the text,
comment, play count and popularimeter indices.
---
 scribbu/id3v23.cc | 50 ++++++++++++++---------------------------------
 scribbu/id3v23.hh |  6 +-----
 2 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..7895258 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -698,7 +698,7 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
+  COMM &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
   add_frame_to_lookups(F, d);
@@ -719,7 +719,7 @@ scribbu::id3v2_3_tag::add_user_defined_text(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const TXXX &F = *pnew;
+  TXXX &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
   add_frame_to_lookups(F, d);
@@ -1104,44 +1104,24 @@ scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t
 }
 
 void
-scribbu::id3v2_3_tag::add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx)
+scribbu::id3v2_3_tag::add_frame_to_lookups(id3v2_3_frame &frame, std::size_t idx)
 {
   using namespace std;
+  if (PCNT *pcnt = dynamic_cast<PCNT*>(&frame)) {
+    pcnts_.push_back(make_pair(pcnt, idx));
+  }
+  else if (COMM *pcom = dynamic_cast<COMM*>(&frame)) {
+    comms_.push_back(make_pair(pcom, idx));
+  }
+  else if (POPM *ppop = dynamic_cast<POPM*>(&frame)) {
+    popms_.push_back(make_pair(ppop, idx));
+  }
+  else if (id3v2_3_text_frame *ptext = dynamic_cast<id3v2_3_text_frame*>(&frame)) {
+    text_map_.insert(make_pair(frame.id(), ptext));
+  }
   frame_map_.insert(make_pair(frame.id(), idx));
 }
 
-void
-scribbu::id3v2_3_tag::add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx)
-{
-  using namespace std;
-  text_map_.insert(make_pair(frame.id(), &frame));
-  add_frame_to_lookups((const id3v2_3_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_3_tag::add_frame_to_lookups(PCNT &frame, std::size_t idx)
-{
-  using namespace std;
-  pcnts_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_3_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_3_tag::add_frame_to_lookups(COMM &frame, std::size_t idx)
-{
-  using namespace std;
-  comms_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_3_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_3_tag::add_frame_to_lookups(POPM &frame, std::size_t idx)
-{
-  using namespace std;
-  popms_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_3_frame&)frame, idx);
-}
-
 /// Not thread-safe
 bool
 scribbu::id3v2_3_tag::register_generic_frame_parser(
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 96dfcd8..81bdc9d 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -593,11 +593,7 @@ namespace scribbu {
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
-    void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
-    void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
-    void add_frame_to_lookups(PCNT &frame, std::size_t idx);
-    void add_frame_to_lookups(COMM &frame, std::size_t idx);
-    void add_frame_to_lookups(POPM &frame, std::size_t idx);
+    void add_frame_to_lookups(id3v2_3_frame &frame, std::size_t idx);
 
   public:
     ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 69f6665e745a3e98c7668f17e9ff2c50ff158a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 029/144] fix: renumber ID3v2.3 lookups when frames are
 inserted or erased

The indices recorded for later frames were left as they were, and moving
through a frame proxy updated the wrong entries.
---
 scribbu/id3v23.cc | 84 ++++++++++++++++-------------------------------
 scribbu/id3v23.hh |  2 ++
 2 files changed, 31 insertions(+), 55 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 7895258..bb9906a 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -758,8 +758,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -771,35 +771,11 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
 
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -907,8 +883,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -921,11 +896,8 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -938,11 +910,8 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -955,11 +924,8 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -971,11 +937,8 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -1033,20 +996,18 @@ scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1061,6 +1022,19 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
   return os;
 }
 
+void
+scribbu::id3v2_3_tag::rebuild_lookups()
+{
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    add_frame_to_lookups(*frames_[i], i);
+  }
+}
+
 void
 scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
 {
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 81bdc9d..ea2372c 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -590,6 +590,8 @@ namespace scribbu {
 
   private:
 
+    /// Bring our ancillary datastructures back in step with the frame vector
+    void rebuild_lookups();
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
-- 
2.43.0


From ce9c7e29b16ae97a68a84ab9a6d5924e0d525516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 030/144] fix: do not erase past the end of ID3v2.3 lookups

User-defined text frames and frames of an unknown layout are not in the
index their identifier suggests.
---
 scribbu/id3v23.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index bb9906a..fb28197 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1045,21 +1045,27 @@ scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t
       std::find_if(comms_.begin(), comms_.end(),
                    [idx](const comm_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    comms_.erase(p);
+    if (comms_.end() != p) {
+      comms_.erase(p);
+    }
   }
   else if (CNT == id) {
     pcnt_frame_lookup_type::iterator p =
       std::find_if(pcnts_.begin(), pcnts_.end(),
                    [idx](const pcnt_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    pcnts_.erase(p);
+    if (pcnts_.end() != p) {
+      pcnts_.erase(p);
+    }
   }
   else if (POP == id) {
     popm_frame_lookup_type::iterator p =
       std::find_if(popms_.begin(), popms_.end(),
                    [idx](const popm_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    popms_.erase(p);
+    if (popms_.end() != p) {
+      popms_.erase(p);
+    }
   }
   else if (id.text_frame()) {
     const id3v2_3_frame *pf = frames_[idx].get();
@@ -1067,7 +1073,9 @@ scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t
       std::find_if(text_map_.begin(), text_map_.end(),
                    [pf, id](const text_frame_lookup_type::value_type &x)
                    { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+    if (text_map_.end() != p) {
+      text_map_.erase(p);
+    }
   }
 
   frame_lookup_type::iterator pflu =
-- 
2.43.0


From 7f17df0685a1c580e8d6f9bd2a0c22a7e8c99984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 031/144] fix: index ID3v2.4 frames by their type however they
 are added

Frames added through the base class interface were missing from the text,
comment, play count and popularimeter indices.
---
 scribbu/id3v24.cc | 46 +++++++++++++---------------------------------
 scribbu/id3v24.hh |  6 +-----
 2 files changed, 14 insertions(+), 38 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index f72f0eb..acf711a 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1196,44 +1196,24 @@ scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t
 }
 
 void
-scribbu::id3v2_4_tag::add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx)
+scribbu::id3v2_4_tag::add_frame_to_lookups(id3v2_4_frame &frame, std::size_t idx)
 {
   using namespace std;
+  if (PCNT_2_4 *pcnt = dynamic_cast<PCNT_2_4*>(&frame)) {
+    pcnts_.push_back(make_pair(pcnt, idx));
+  }
+  else if (COMM_2_4 *pcom = dynamic_cast<COMM_2_4*>(&frame)) {
+    comms_.push_back(make_pair(pcom, idx));
+  }
+  else if (POPM_2_4 *ppop = dynamic_cast<POPM_2_4*>(&frame)) {
+    popms_.push_back(make_pair(ppop, idx));
+  }
+  else if (id3v2_4_text_frame *ptext = dynamic_cast<id3v2_4_text_frame*>(&frame)) {
+    text_map_.insert(make_pair(frame.id(), ptext));
+  }
   frame_map_.insert(make_pair(frame.id(), idx));
 }
 
-void
-scribbu::id3v2_4_tag::add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx)
-{
-  using namespace std;
-  text_map_.insert(make_pair(frame.id(), &frame));
-  add_frame_to_lookups((const id3v2_4_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_4_tag::add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx)
-{
-  using namespace std;
-  pcnts_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_4_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_4_tag::add_frame_to_lookups(COMM_2_4 &frame, std::size_t idx)
-{
-  using namespace std;
-  comms_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_4_frame&)frame, idx);
-}
-
-void
-scribbu::id3v2_4_tag::add_frame_to_lookups(POPM_2_4 &frame, std::size_t idx)
-{
-  using namespace std;
-  popms_.push_back(make_pair(&frame, idx));
-  add_frame_to_lookups((const id3v2_4_frame&)frame, idx);
-}
-
 std::tuple<boost::shared_array<unsigned char>, std::size_t>
 scribbu::id3v2_4_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..6cf93ca 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -628,11 +628,7 @@ namespace scribbu {
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
-    void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
-    void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
-    void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-    void add_frame_to_lookups(COMM_2_4 &frame, std::size_t idx);
-    void add_frame_to_lookups(POPM_2_4 &frame, std::size_t idx);
+    void add_frame_to_lookups(id3v2_4_frame &frame, std::size_t idx);
 
   public:
 
-- 
2.43.0


From c6a0986fbc2f22869a26226aa811df48ecc9dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 032/144] fix: renumber ID3v2.4 lookups when frames are
 inserted or erased

The indices recorded for later frames were left as they were, and moving
through a frame proxy updated the wrong entries.
---
 scribbu/id3v24.cc | 84 ++++++++++++++++-------------------------------
 scribbu/id3v24.hh |  2 ++
 2 files changed, 31 insertions(+), 55 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index acf711a..aeb26ee 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -838,8 +838,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    rebuild_lookups();
   }
 }
 
@@ -850,35 +850,11 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
 
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->rebuild_lookups();
+  if (that.p_ != p_) {
+    that.p_->rebuild_lookups();
   }
 
   return *this;
@@ -986,8 +962,7 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  rebuild_lookups();
   return iterator(this, p1);
 }
 
@@ -999,11 +974,8 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1016,11 +988,8 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1033,11 +1002,8 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1050,11 +1016,8 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
   // 2. Avoids dynamic_cast
 
   std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
-
   auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  rebuild_lookups();
 
   return iterator(this, p1);
 }
@@ -1113,20 +1076,18 @@ scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
   std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + idx);
+  rebuild_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  rebuild_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1153,6 +1114,19 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
   return os;
 }
 
+void
+scribbu::id3v2_4_tag::rebuild_lookups()
+{
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    add_frame_to_lookups(*frames_[i], i);
+  }
+}
+
 void
 scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
 {
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 6cf93ca..e706575 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -625,6 +625,8 @@ namespace scribbu {
 
   private:
 
+    /// Bring our ancillary datastructures back in step with the frame vector
+    void rebuild_lookups();
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
-- 
2.43.0


From 1f6ca7095d6f2a08b7b5e9924d1c50511aa0a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:36 +0000
Subject: [PATCH 033/144] fix: do not erase past the end of ID3v2.4 lookups

User-defined text frames and frames of an unknown layout are not in the
index their identifier suggests.
---
 scribbu/id3v24.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index aeb26ee..c8d9399 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1137,21 +1137,27 @@ scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t
       std::find_if(comms_.begin(), comms_.end(),
                    [idx](const comm_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    comms_.erase(p);
+    if (comms_.end() != p) {
+      comms_.erase(p);
+    }
   }
   else if (CNT == id) {
     pcnt_frame_lookup_type::iterator p =
       std::find_if(pcnts_.begin(), pcnts_.end(),
                    [idx](const pcnt_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    pcnts_.erase(p);
+    if (pcnts_.end() != p) {
+      pcnts_.erase(p);
+    }
   }
   else if (POP == id) {
     popm_frame_lookup_type::iterator p =
       std::find_if(popms_.begin(), popms_.end(),
                    [idx](const popm_frame_lookup_type::value_type &x)
                    { return x.second == idx; });
-    popms_.erase(p);
+    if (popms_.end() != p) {
+      popms_.erase(p);
+    }
   }
   else if (id.text_frame()) {
     const id3v2_4_frame *pf = frames_[idx].get();
@@ -1159,7 +1165,9 @@ scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t
       std::find_if(text_map_.begin(), text_map_.end(),
                    [pf, id](const text_frame_lookup_type::value_type &x)
                    { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+    if (text_map_.end() != p) {
+      text_map_.erase(p);
+    }
   }
 
   frame_lookup_type::iterator pflu =
-- 
2.43.0


From 7a03feacb3d2d5c24edb4c0cfad1d3d58dccee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:55 +0000
Subject: [PATCH 034/144] fix: do not dereference a moved-from pointer when
 adding ID3v2.2 frames

---
 scribbu/id3v22.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index de2522a..2622857 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -321,10 +321,11 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
                                   on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
   std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
+  COM &F = *pnew;
 
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 
 }
 
@@ -340,10 +341,11 @@ scribbu::id3v2_2_tag::add_user_defined_text(
   using namespace std;
 
   unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
+  TXX &F = *pnew;
 
   ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
-- 
2.43.0


From c21e90bda398d48a43aa1d3e899884ed52c99594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:55 +0000
Subject: [PATCH 035/144] fix: do not dereference a moved-from pointer when
 adding ID3v2.4 frames

---
 scribbu/id3v24.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index c8d9399..8f89328 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -779,9 +779,10 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               false, false,
                                                               boost::none,
                                                               description);
+  COMM_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
@@ -800,9 +801,10 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               description);
+  TXXX_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
-- 
2.43.0


From b0ba312edb9c13e31ad8a47436d09f5853656989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:56 +0000
Subject: [PATCH 036/144] fix: copy the version, flags and extended header of
 tags

Copies initialised the base class from themselves, dereferenced a missing
extended header and indexed each frame one past its position.
---
 scribbu/id3v22.cc |  6 +++---
 scribbu/id3v23.cc | 14 +++++++++-----
 scribbu/id3v24.cc | 18 ++++++++++++------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 2622857..d9cf3ac 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -207,14 +207,14 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
+    add_frame_to_lookups( *frames_.back(), frames_.size() - 1 );
   }
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
@@ -228,7 +228,7 @@ scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
     text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
+      add_frame_to_lookups( *frames_.back(), frames_.size() - 1 );
     }
   }
   return *this;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index fb28197..dcff556 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -346,7 +346,7 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
@@ -357,7 +357,7 @@ scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
+    add_frame_to_lookups( *frames_.back(), frames_.size() - 1 );
     if (frames_.back()->id() == frame_id4("ENCR")) {
       register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
     }
@@ -367,11 +367,15 @@ scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    if (that.pext_header_) {
+      pext_header_.reset(new ext_header(*that.pext_header_));
+    } else {
+      pext_header_.reset();
+    }
     padding_ = that.padding_;
 
     comms_.clear();
@@ -384,7 +388,7 @@ scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
+      add_frame_to_lookups( *frames_.back(), frames_.size() - 1 );
       if (frames_.back()->id() == frame_id4("ENCR")) {
         register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
       }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 8f89328..9c6420d 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -502,17 +502,19 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
   padding_(that.padding_)
 {
+  if (that.pext_header_) {
+    pext_header_.reset(new ext_header(*that.pext_header_));
+  }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
+    add_frame_to_lookups( *frames_.back(), frames_.size() - 1 );
     if (frames_.back()->id() == frame_id4("ENCR")) {
       register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
     }
@@ -522,12 +524,16 @@ scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    if (that.pext_header_) {
+      pext_header_.reset(new ext_header(*that.pext_header_));
+    } else {
+      pext_header_.reset();
+    }
     padding_ = that.padding_;
 
     comms_.clear();
@@ -540,7 +546,7 @@ scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
+      add_frame_to_lookups( *frames_.back(), frames_.size() - 1 );
       if (frames_.back()->id() == frame_id4("ENCR")) {
         register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
       }
-- 
2.43.0


From 58bc85b59561ff2caf899ea736c3c8fa30461bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:15 +0000
Subject: [PATCH 037/144] fix: copy and delete the internal encoding of a
 stream as what it is

---
 scribbu/ostream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/ostream.cc b/scribbu/ostream.cc
index 632e931..adbb779 100644
--- a/scribbu/ostream.cc
+++ b/scribbu/ostream.cc
@@ -80,7 +80,7 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
 
   if (ios_base::erase_event == e) {
     try {
-      delete reinterpret_cast<char*>(ios.pword(idx));
+      delete reinterpret_cast<ienc*>(ios.pword(idx));
     }
     catch (...) {
       // Nothing to be done-- either the stream is being destroyed, or
@@ -91,10 +91,10 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
   }
   else if (ios_base::copyfmt_event == e) {
     void *&p = ios.pword(idx);
-    char *pold = reinterpret_cast<char*>(p);
+    ienc *pold = reinterpret_cast<ienc*>(p);
     if (nullptr != pold) {
       try {
-        p = strdup(pold);
+        p = new ienc(*pold);
       }
       catch (...) {
         // We can't throw, and we have no return code. The only thing
-- 
2.43.0


From 8d871ebe6156731a04ef663eea8af1e0da115f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:18 +0000
Subject: [PATCH 038/144] fix: Give each call of compute_track_md5 a buffer of
 its own

The buffer was static, so two threads computing checksums at the same
time overwrote each other's data.
---
 scribbu/scribbu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 3f3341b..675b641 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -236,7 +236,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
 
   const std::size_t BUFSIZE = 4 * 1024 * 1024; // Four megabytes
 
-  static unsigned char BUF[BUFSIZE];
+  std::vector<unsigned char> buf(BUFSIZE);
 
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
   EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
@@ -253,8 +253,8 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
 
     std::streamsize nbytes = BUFSIZE > nleft ? nleft : BUFSIZE;
 
-    is.read((char*)BUF, nbytes);
-    if (! EVP_DigestUpdate(mdctx, BUF, nbytes)) {
+    is.read((char*)buf.data(), nbytes);
+    if (! EVP_DigestUpdate(mdctx, buf.data(), nbytes)) {
       EVP_MD_CTX_destroy(mdctx);
       throw openssl_error();
     }
-- 
2.43.0


From ee99b89b2b3a193820e0edd3f61ba079ccf9a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:18 +0000
Subject: [PATCH 039/144] fix: Build the ISO 639-1 table once, safely, and
 never change it

The table was filled on first use without a lock, and looking up an
unknown code inserted a new entry that mapped to "from_locale".  The
unknown code is now reported.
---
 scribbu/charsets.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8ec7298..fb4f7f6 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -933,9 +933,8 @@ namespace scribbu {
 scribbu::language
 scribbu::language_from_iso_639_1(char code[2])
 {
-  static bool init = false;
-  static std::unordered_map<uint16_t, language> lookup;
-  if (!init) {
+  static const std::unordered_map<uint16_t, language> LOOKUP = [] {
+    std::unordered_map<uint16_t, language> lookup;
 #   define H(a, b) lookup.insert(std::make_pair((#a[0]<<8)|#a[1], language:: b))
     H(aa, aar);
     H(ab, abk);
@@ -1142,10 +1141,14 @@ scribbu::language_from_iso_639_1(char code[2])
     H(zh, zho);
     H(zu, zul);
 #   undef H
-    init = true;
-  }
+    return lookup;
+  }();
 
-  return lookup[(code[0]<<8)|code[1]];
+  auto p = LOOKUP.find((code[0]<<8)|code[1]);
+  if (LOOKUP.end() == p) {
+    throw std::invalid_argument("unknown ISO 639-1 language code");
+  }
+  return p->second;
 }
 
 scribbu::language
-- 
2.43.0


From 5d825cba9b52eba12aa5c945dbb2f43a4c28e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:18 +0000
Subject: [PATCH 040/144] fix: Reserve the ID3v2.2 play count frame under its
 real identifier

The list of reserved identifiers named "PCT", which does not exist, so
a parser could be registered for CNT and was then silently ignored.
---
 scribbu/id3v22.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index d9cf3ac..0239845 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -757,7 +757,7 @@ scribbu::id3v2_2_tag::parsing_is_reserved(const frame_id3 &id)
 {
   using namespace std;
 
-  vector<frame_id3> RSVD{ "COM", "PCT", "POP" };
+  vector<frame_id3> RSVD{ "COM", "CNT", "POP" };
 
   return RSVD.end() != find(RSVD.begin(), RSVD.end(), id);
 }
-- 
2.43.0


From 7b917fba815798ab24e6c88b47c923bab4878e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:18 +0000
Subject: [PATCH 041/144] fix: Reserve PRIV, which the ID3v2.3 and ID3v2.4
 parsers handle themselves

A parser registered for it was accepted and then never used.
---
 scribbu/id3v23.cc | 2 +-
 scribbu/id3v24.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index dcff556..9963df2 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1538,7 +1538,7 @@ scribbu::id3v2_3_tag::parsing_is_reserved(const frame_id4 &id)
 {
   using namespace std;
 
-  vector<frame_id4> RSVD{ "COMM", "PCNT", "POPM" };
+  vector<frame_id4> RSVD{ "COMM", "PCNT", "POPM", "PRIV" };
 
   return RSVD.end() != find(RSVD.begin(), RSVD.end(), id);
 }
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9c6420d..894fbba 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1595,7 +1595,7 @@ scribbu::id3v2_4_tag::parsing_is_reserved(const frame_id4 &id)
 {
   using namespace std;
 
-  vector<frame_id4> RSVD{ "COMM", "PCNT", "POPM" };
+  vector<frame_id4> RSVD{ "COMM", "PCNT", "POPM", "PRIV" };
 
   return RSVD.end() != find(RSVD.begin(), RSVD.end(), id);
 }
-- 
2.43.0


From d3d77c7099c8daad6c085e4f772391b3d4b56a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:18 +0000
Subject: [PATCH 042/144] fix: Refuse default text frame parsers for reserved
 identifiers

Every other registration function already did.
---
 scribbu/id3v22.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 0239845..48c9419 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -748,6 +748,9 @@ scribbu::id3v2_2_tag::register_default_text_frame_parser(
   const frame_id3 &id,
   const text_frame_parser &F)
 {
+  if (parsing_is_reserved(id)) {
+    throw reserved_frame_error(id);
+  }
   std::lock_guard<std::mutex> guard(mutex_);
   return default_text_parsers_.insert(std::make_pair(id, F)).second;
 }
-- 
2.43.0


From 215e8837bea9aef62de0186c1f794bdfd512e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:18 +0000
Subject: [PATCH 043/144] fix: Register the ID3v2.4 XTAG and PRIV printers with
 the ID3v2.4 table

They were registered with the ID3v2.3 table, so printing such a frame
threw std::out_of_range.
---
 scribbu/pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index ae4f2a7..a7f648a 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -289,8 +289,8 @@ pprint_dispatcher::pprint_dispatcher()
   reg_v24_frame<COMM_2_4, &pprinter::pprint_COMM_2_4>();
   reg_v24_frame<PCNT_2_4, &pprinter::pprint_PCNT_2_4>();
   reg_v24_frame<POPM_2_4, &pprinter::pprint_POPM_2_4>();
-  reg_v23_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
-  reg_v23_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
+  reg_v24_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
+  reg_v24_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
 
 }
 
-- 
2.43.0


From 0233225abb8adf333c122276dc9420729bbcbbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:09 +0000
Subject: [PATCH 044/144] fix: Define the default parser registration functions
 of ID3v2.3 and ID3v2.4

They were declared, but a program calling them did not link.
---
 scribbu/id3v23.cc | 24 ++++++++++++++++++++++++
 scribbu/id3v24.cc | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 9963df2..95370d5 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1533,6 +1533,30 @@ scribbu::id3v2_3_tag::parse_frame(
 
 }
 
+/*static*/ bool
+scribbu::id3v2_3_tag::register_default_frame_parser(
+  const frame_id4 &id,
+  const generic_frame_parser &F)
+{
+  if (parsing_is_reserved(id)) {
+    throw reserved_frame_error(id);
+  }
+  std::lock_guard<std::mutex> guard(mutex_);
+  return default_generic_parsers_.insert(std::make_pair(id, F)).second;
+}
+
+/*static*/ bool
+scribbu::id3v2_3_tag::register_default_frame_parser(
+  const frame_id4 &id,
+  const text_frame_parser &F)
+{
+  if (parsing_is_reserved(id)) {
+    throw reserved_frame_error(id);
+  }
+  std::lock_guard<std::mutex> guard(mutex_);
+  return default_text_parsers_.insert(std::make_pair(id, F)).second;
+}
+
 /*static*/ bool
 scribbu::id3v2_3_tag::parsing_is_reserved(const frame_id4 &id)
 {
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 894fbba..719a1dc 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1590,6 +1590,30 @@ scribbu::id3v2_4_tag::parse_frame(
 
 }
 
+/*static*/ bool
+scribbu::id3v2_4_tag::register_default_generic_frame_parser(
+  const frame_id4 &id,
+  const generic_frame_parser &F)
+{
+  if (parsing_is_reserved(id)) {
+    throw reserved_frame_error(id);
+  }
+  std::lock_guard<std::mutex> guard(mutex_);
+  return default_generic_parsers_.insert(std::make_pair(id, F)).second;
+}
+
+/*static*/ bool
+scribbu::id3v2_4_tag::register_default_text_frame_parser(
+  const frame_id4 &id,
+  const text_frame_parser &F)
+{
+  if (parsing_is_reserved(id)) {
+    throw reserved_frame_error(id);
+  }
+  std::lock_guard<std::mutex> guard(mutex_);
+  return default_text_parsers_.insert(std::make_pair(id, F)).second;
+}
+
 /*static*/ bool
 scribbu::id3v2_4_tag::parsing_is_reserved(const frame_id4 &id)
 {
-- 
2.43.0


From 1a76e978051019d7cfa52611b7df5fbab9c46a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:51 +0000
Subject: [PATCH 045/144] fix: Look for PCNT in id3v2_4_tag::has_play_count

CNT is the ID3v2.2 identifier, so a play count was never found.
---
 scribbu/id3v24.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index e706575..afd8ab5 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -335,7 +335,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return frame_map_.count("PCNT"); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From 8a1515575b7b7d56b89a36e90743f6b2478f044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:51 +0000
Subject: [PATCH 046/144] fix: Use TBP for beats per minute in ID3v2.2

The standard and the parser use TBP; TBM was written but never recognised.
---
 scribbu/framesv2.cc | 6 +++---
 scribbu/framesv2.hh | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 1c30494..6ab7696 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -84,8 +84,8 @@ scribbu::operator>>(std::istream &is, id3v2_text_frames &x)
     { "album",        id3v2_text_frames::talb },
     { "tbpm",         id3v2_text_frames::tbpm },
     { "TBPM",         id3v2_text_frames::tbpm },
-    { "tbm",          id3v2_text_frames::tbpm },
-    { "TBM",          id3v2_text_frames::tbpm },
+    { "tbp",          id3v2_text_frames::tbpm },
+    { "TBP",          id3v2_text_frames::tbpm },
     { "tcom",         id3v2_text_frames::tcom },
     { "TCOM",         id3v2_text_frames::tcom },
     { "tcm",          id3v2_text_frames::tcom },
@@ -356,7 +356,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 56817ff..d08b71c 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -188,7 +188,7 @@ namespace scribbu {
   /// an ID3v2 version-independent way of naming text frames
   enum class id3v2_text_frames {
     talb, // Album/Movie/Show title [TAL]
-    tbpm, // beats per minute [TBM]
+    tbpm, // beats per minute [TBP]
     tcom, // Composer(s) [TCM]
     tcon, // Content type [TCO]
     tcop, // Copyright message [TCR]
-- 
2.43.0


From 6b4a822a99c28b77e2c09b1079ff9d5c6538c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:51 +0000
Subject: [PATCH 047/144] fix: Map the remaining text frames to their ID3v2.2
 identifiers

Media type and the original album, lyricist, artist and year exist in
ID3v2.2 but were rejected as unknown.
---
 scribbu/framesv2.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 6ab7696..7f9d77f 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -387,8 +387,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
-- 
2.43.0


From 1dc94b900cfe1854f181d85b493703d939f2f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:07 +0000
Subject: [PATCH 048/144] fix: hand the exception mask back in id3v1.cc however
 we leave

The readers of an ID3v1 tag left the stream with their own exception mask when they threw (and id3v1_tag always did).
---
 scribbu/errors.hh | 23 +++++++++++++++++++++++
 scribbu/id3v1.cc  |  3 +++
 2 files changed, 26 insertions(+)

diff --git a/scribbu/errors.hh b/scribbu/errors.hh
index caa2112..1ddf942 100644
--- a/scribbu/errors.hh
+++ b/scribbu/errors.hh
@@ -26,9 +26,32 @@
 
 #include <boost/exception/all.hpp>
 #include <exception>
+#include <ios>
 
 namespace scribbu {
 
+  namespace detail {
+
+    /// Hand a stream back with the exception mask it had on construction, no
+    /// matter how the scope is left
+    class exception_mask_restorer {
+    public:
+      explicit exception_mask_restorer(std::ios &s): s_(s), mask_(s.exceptions())
+      { }
+      ~exception_mask_restorer() {
+        // The mask is set even when this throws (because the stream is
+        // already in one of the states in the mask).
+        try { s_.exceptions(mask_); } catch (...) { }
+      }
+      exception_mask_restorer(const exception_mask_restorer&) = delete;
+      exception_mask_restorer& operator=(const exception_mask_restorer&) = delete;
+    private:
+      std::ios &s_;
+      std::ios_base::iostate mask_;
+    };
+
+  } // End namespace detail.
+
   /**
    * \class error
    *
diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index c416f7b..85ada35 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -85,6 +85,7 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|std::ios_base::failbit|std::ios_base::badbit);
 
@@ -128,6 +129,7 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|std::ios_base::failbit|std::ios_base::badbit);
 
@@ -459,6 +461,7 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
-- 
2.43.0


From 5a4e0ea6b773d94d8559d67620280b2a7d6a4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:07 +0000
Subject: [PATCH 049/144] fix: hand the exception mask back in id3v2.cc however
 we leave

The readers of an ID3v2 header left the stream with their own exception mask when they threw.
---
 scribbu/id3v2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 3af5004..aaadd38 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -164,6 +164,7 @@ scribbu::looking_at_id3v2(std::istream &is,
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|std::ios_base::failbit|std::ios_base::badbit);
 
@@ -414,6 +415,7 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is): version_(0), revision_(0)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|std::ios_base::failbit|std::ios_base::badbit);
 
@@ -471,6 +473,7 @@ scribbu::id3v2_tag::parse_flags_and_size(std::istream &is)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|std::ios_base::failbit|std::ios_base::badbit);
 
-- 
2.43.0


From 910e78d7e96bbac134872c9a909bb42cc3e1c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:07 +0000
Subject: [PATCH 050/144] fix: hand the exception mask back in id3v22.cc
 however we leave

Parsing an ID3v2.2 tag left the stream with its own exception mask when it threw.
---
 scribbu/id3v22.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 48c9419..86dadad 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -806,6 +806,7 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|
                 std::ios_base::failbit|
-- 
2.43.0


From a47f5115173f9ae5fd8766ce38f2b37a26a57415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:07 +0000
Subject: [PATCH 051/144] fix: hand the exception mask back in id3v23.cc
 however we leave

Parsing an ID3v2.3 tag left the stream with its own exception mask when it threw.
---
 scribbu/id3v23.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 95370d5..84141ac 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1158,6 +1158,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|
                 std::ios_base::failbit|
-- 
2.43.0


From 9c00a85963b69b3692fb6fa0f1c07d64a859e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:07 +0000
Subject: [PATCH 052/144] fix: hand the exception mask back in id3v24.cc
 however we leave

Parsing an ID3v2.4 tag left the stream with its own exception mask when it threw.
---
 scribbu/id3v24.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 719a1dc..04a587e 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1233,6 +1233,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(std::ios_base::eofbit|
                 std::ios_base::failbit|
-- 
2.43.0


From d55cdb0779ceb50261ca6c47f5e126d9c5db11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:07 +0000
Subject: [PATCH 053/144] fix: hand the exception mask back in mp3.cc however
 we leave

Find_sync & get_mp3_duration did not hand the exception mask back.
---
 scribbu/mp3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index aeb7e30..8afa38d 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -565,6 +565,7 @@ scribbu::find_sync(std::istream &is)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
@@ -591,6 +592,7 @@ scribbu::get_mp3_duration(std::istream &is)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
-- 
2.43.0


From 7d4555b2e065cf1f89f44f984f1a676909bb32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:08 +0000
Subject: [PATCH 054/144] fix: hand the exception mask back in scribbu.cc
 however we leave

Find_id3v1_tag, compute_track_md5 & track_data left the stream with their own exception mask when they threw.
---
 scribbu/scribbu.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 675b641..19d0971 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -149,6 +149,7 @@ scribbu::find_id3v1_tag(std::istream &is)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
@@ -223,6 +224,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
@@ -287,6 +289,7 @@ scribbu::track_data::track_data(std::istream &is) :
   // Copy off the stream's exception mask, in case the caller is
   // counting on it...
   std::ios_base::iostate exc_mask = is.exceptions();
+  scribbu::detail::exception_mask_restorer restore_mask(is);
   // and set it to a value convenient for our use.
   is.exceptions(EXC_MASK);
 
-- 
2.43.0


From 4a7945abd0a067bb3fa4c2218b0676496a5112be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 055/144] fix: keep find_trailing_null inside the text it is
 given

It read one byte past the end of any text, and returned a position past the
end for UTF-16 text of odd length.
---
 scribbu/framesv2.hh | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index d08b71c..6b8b88d 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -89,20 +89,17 @@ namespace scribbu {
                        forward_input_iterator p1)
     {
       // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
-      std::size_t saw_nil = 0;
-      for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
-        }
-        else {
-          unsigned char b0 = *p0, b1 = *(p0 + 1);
-          if (0 == b0 && 0 == b1) {
-            break;
-          }
+      if (1 == code_unit) {
+        return std::find(p0, p1, 0);
+      }
+      for ( ; std::distance(p0, p1) > 1; p0 += 2) {
+        unsigned char b0 = *p0, b1 = *(p0 + 1);
+        if (0 == b0 && 0 == b1) {
+          return p0;
         }
       }
 
-      return p0;
+      return p1;
     }
 
     /// Return true iff [x, y] contain an MP3 sync word (i.e. the bit
-- 
2.43.0


From 254398479290096fe655f36eac0491beb1154a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 056/144] fix: don't read past the end of an empty TXX/TXXX
 frame

---
 scribbu/framesv2.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 6b8b88d..9fcd70d 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -593,8 +593,12 @@ namespace scribbu {
     user_defined_text(id3v2_version ver,
                       forward_input_iterator p0,
                       forward_input_iterator p1):
-      cbnil_(1)
+      cbnil_(1), unicode_(0)
     {
+      if (p0 == p1) {
+        return;
+      }
+
       unicode_ = *p0++;
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
-- 
2.43.0


From 3f18dccfd7b5865226fd38937837034194cf6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 057/144] fix: don't read past the end of a truncated POP/POPM
 frame

---
 scribbu/framesv2.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 9fcd70d..ada1c8a 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -902,12 +902,16 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1): rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      rating_ = *p++;
+      if (p != p1) {
+        ++p;
+      }
+      if (p != p1) {
+        rating_ = *p++;
+      }
       std::copy(p, p1, std::back_inserter(counter_));
     }
     /// Construct "from scratch"
-- 
2.43.0


From 441c30b25bd567b3182c74cf7b1855dbf891d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 058/144] fix: don't read past the end of a malformed XTG/XTAG
 frame

---
 scribbu/framesv2.hh | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index ada1c8a..03ccc46 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -1006,18 +1006,27 @@ namespace scribbu {
     {
       using namespace std;
 
-      ++p0; // version
+      if (p0 != p1) {
+        ++p0; // version
+      }
 
       forward_input_iterator p = find(p0, p1, 0);
       copy(p0, p, back_inserter(own_));
 
-      p0 = ++p;
+      if (p != p1) {
+        ++p;
+      }
+      p0 = p;
       while (p0 != p1) {
 
         p = find(p0, p1, 0);
         string key;
         copy(p0, p, back_inserter(key));
 
+        if (distance(p, p1) < 5) {
+          break; // truncated
+        }
+
         unsigned char buf[4];
         copy(p + 1, p + 5, buf);
         const uint32_t *pb = (const uint32_t*)(buf);
@@ -1025,13 +1034,16 @@ namespace scribbu {
 
         set<string> vals;
         p0 = p + 5;
-        while (cb) {
+        while (cb && p0 != p1) {
           p = find(p0, p1, 0);
           string val;
           copy(p0, p, back_inserter(val));
-          p0 = ++p;
+          if (p != p1) {
+            ++p;
+          }
+          p0 = p;
           vals.insert(val);
-          cb -= val.length() + 1;
+          cb -= cb < val.length() + 1 ? cb : val.length() + 1;
         }
 
         tags_[key] = vals;
-- 
2.43.0


From db225be5adbb6656bd18870b2ffc29f8581d1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 059/144] fix: don't read past the end of a PRIV frame without
 a NUL

---
 scribbu/framesv23.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 0ca2f30..ff2aaff 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -333,7 +333,9 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
+      if (p != p1) {
+        ++p;
+      }
       std::copy(p, p1, std::back_inserter(contents_));
     }
     /// Construct "from scratch"
-- 
2.43.0


From 548b5c2811c7ee95709a8e0bbbd9c1f5e41f0535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 060/144] fix: don't read past the end of an empty text frame

---
 scribbu/framesv22.hh | 2 +-
 scribbu/framesv23.hh | 2 +-
 scribbu/framesv24.hh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index dc85797..aaf8cac 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -338,7 +338,7 @@ namespace scribbu {
                        forward_input_iterator p1):
       id3v2_2_frame(id)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index ff2aaff..f04c6b3 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -690,7 +690,7 @@ namespace scribbu {
                        const opt_sz_type       &decsz):
       id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 0b74305..d8e17db 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -439,7 +439,7 @@ namespace scribbu {
                        const boost::optional<std::size_t>   &dli):
       id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
     // char[4]
-- 
2.43.0


From 02c2e4f89b0124836eecbe638850cedfcd946ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 061/144] fix: check the length of an ID3v2.3 extended header
 before reading it

---
 scribbu/id3v23.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 84141ac..0569350 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -189,6 +189,10 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p1 - p0 < 10) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
@@ -200,6 +204,9 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   cbpad_ = unsigned_from_non_sync_safe(p0[6], p0[7], p0[8], p0[9]);
 
   if (fcrc) {
+    if (p1 - p0 < 14) {
+      throw invalid_ext_header();
+    }
     crc_ = uint32_from_non_sync_safe(p0[10], p0[11], p0[12], p0[13]);
   }
 }
-- 
2.43.0


From 630cedb7314f66ff7f29d470724173d763aeb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 062/144] fix: read the two-byte VBRI entry count into two
 bytes

Four bytes were read into a two-byte variable.
---
 scribbu/mp3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 8afa38d..9e32abb 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -100,8 +100,8 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   num_frames_ = ntohl(nl);
 
   uint16_t num_entries;
-  is.read((char*)&num_entries, 4);
-  num_entries = ntohl(num_entries);
+  is.read((char*)&num_entries, 2);
+  num_entries = ntohs(num_entries);
 
   is.read((char*)&ns, 2);
   scale_ = ntohs(ns);
-- 
2.43.0


From cc1883b76c543ecf273a63893024ab90af0d5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 063/144] fix: look at the fourth byte of the LAME version, not
 the fifth

The buffer holds four.
---
 scribbu/mp3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 9e32abb..12226e8 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -72,7 +72,7 @@ namespace {
   is_lame(char buf[]) {
     return
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
-      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
+      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
 }
 
-- 
2.43.0


From 03a6dc1545566af99b73b1e8f4c412396bf221e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 064/144] fix: don't read the first byte of empty binary data
 when printing

---
 scribbu/pprinter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index a7f648a..6178664 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,6 +65,10 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
+  if (p0 == p1) {
+    os << indent << "  ><";
+    return;
+  }
   os << indent << hex << setw(2) << (unsigned)*p0;
   ascii_rep += asciify(*p0);
   for (++p0 ; p0 != p1; ++p0) {
-- 
2.43.0


From 6abc867eeaf157854e7b7f4fb44dbacb0a9a3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:03 +0000
Subject: [PATCH 065/144] fix: don't touch the first tag of an empty tagset
 when adjusting padding

There also was a division by the number of tags.
---
 scribbu/tagset.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 83eb095..1d971d3 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -652,6 +652,14 @@ namespace scribbu {
                              "strategy currently supported");
     }
 
+    if (p0 == p1) {
+      // No tags, no padding to adjust
+      if (cb_new != cb_curr) {
+        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+      }
+      return;
+    }
+
     ptrdiff_t total_adj = cb_new - cb_curr;
     ptrdiff_t num_tags = std::distance(p0, p1);
     ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
-- 
2.43.0


From b15bc8176d91f8e55d79862cf3caee0237283fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 066/144] fix: don't read past the end of a malformed ID3v2.2
 tag

Neither a frame running past the end of the tag nor one or two stray bytes at
the end were detected.
---
 scribbu/id3v22.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 86dadad..8923c95 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -864,6 +864,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
+      if (left < 3) {
+        throw invalid_tag();
+      }
+
       // left > 2
       frame_id3 id(p0[0], p0[1], p0[2]);
       if (PADDING == id) {
@@ -889,7 +893,7 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
       // Therefore, we have cb_frame < cb_tag. If this relationship isn't
       // satisfied, it's a good bet that this tag is either corrupt or
       // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      if (cb_frame >= cb_tag || cb_frame > left - 6) {
         throw invalid_tag();
       }
 
-- 
2.43.0


From f75b95dd226acacc9293dc58566907f3e4a66cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 067/144] fix: don't read past the end of a malformed ID3v2.3
 tag

Frames running past the end of the tag, frames too small for the fields their
flags call for and stray bytes at the end were not detected.
---
 scribbu/id3v23.cc | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 0569350..9990958 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1243,6 +1243,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
         if (PADDING == id) {
@@ -1255,6 +1259,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
@@ -1282,17 +1289,26 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         std::size_t cb_read = cb_frame;
         boost::optional<std::size_t> decompressed_size = boost::none;
         if (0 != (f1 & 0x80)) {
+          if (cb_read < 4) {
+            throw invalid_tag();
+          }
           decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
           cb_read -= 4;
         }
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x40)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           encryption_method = *pread++;
           cb_read -= 1;
         }
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x20)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           group_id = *pread++;
           cb_read -= 1;
         }
@@ -1353,6 +1369,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1376,7 +1396,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       // Therefore, we have cb_frame < cb_tag. If this relationship isn't
       // satisfied, it's a good bet that this tag is either corrupt or
       // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      if (cb_frame >= cb_tag || cb_frame > left - 10) {
         throw invalid_tag();
       }
 
@@ -1402,17 +1422,26 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
       std::size_t cb_read = cb_frame;
       boost::optional<std::size_t> decompressed_size = boost::none;
       if (0 != (f1 & 0x80)) {
+        if (cb_read < 4) {
+          throw invalid_tag();
+        }
         decompressed_size = unsigned_from_non_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
         cb_read -= 4;
       }
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x40)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         encryption_method = *pread++;
         cb_read -= 1;
       }
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x20)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         group_id = *pread++;
         cb_read -= 1;
       }
-- 
2.43.0


From ce531e01e12e376549d47ec95e6ac89a01354e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 068/144] fix: don't read past the end of a malformed ID3v2.4
 tag

Frames running past the end of the tag, frames too small for the fields their
flags call for and stray bytes at the end were not detected.
---
 scribbu/id3v24.cc | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 04a587e..c08a398 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1289,6 +1289,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         // left > 3
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
 
@@ -1297,17 +1301,20 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (pcurr + 11 > p1) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
+        if (cb_frame > left - 10) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
-        }
-
         unsigned char f0 = p0[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
@@ -1330,18 +1337,27 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         std::size_t cb_read = cb_frame;
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           group_id = *pread++;
           cb_read -= 1;
         }
         bool compressed = f1 & 0x80;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
+          if (cb_read < 1) {
+            throw invalid_tag();
+          }
           encryption_method = *pread++;
           cb_read -= 1;
         }
         bool unsynchronisation = f1 & 0x02;
         boost::optional<std::size_t> data_len_ind;
         if (f1 & 0x01) {
+          if (cb_read < 4) {
+            throw invalid_tag();
+          }
           data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
           pread += 4;
           cb_read -= 4;
@@ -1387,6 +1403,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       // left > 3
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
@@ -1410,7 +1430,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // Therefore, we have cb_frame < cb_tag. If this relationship isn't
       // satisfied, it's a good bet that this tag is either corrupt or
       // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      if (cb_frame >= cb_tag || cb_frame > left - 10) {
         throw invalid_tag();
       }
 
@@ -1436,18 +1456,27 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       std::size_t cb_read = cb_frame;
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         group_id = *pread++;
         cb_read -= 1;
       }
       bool compressed = f1 & 0x80;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
+        if (cb_read < 1) {
+          throw invalid_tag();
+        }
         encryption_method = *pread++;
         cb_read -= 1;
       }
       bool unsynchronisation = f1 & 0x02;
       boost::optional<std::size_t> data_len_ind;
       if (f1 & 0x01) {
+        if (cb_read < 4) {
+          throw invalid_tag();
+        }
         data_len_ind = unsigned_from_sync_safe(pread[0], pread[1], pread[2], pread[3]);
         pread += 4;
         cb_read -= 4;
-- 
2.43.0


From 04871a2c7ebe863f9dd09c7e8d2500deac9791f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 069/144] fix: take the flags of an ENCR frame from that frame

The ID3v2.4 parser took them from the first frame in the tag.
---
 scribbu/id3v24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index c08a398..8687978 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1315,7 +1315,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           continue;
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
-- 
2.43.0


From 3ff6432afa0de21c59b3f4309da3ed8298e54045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 070/144] fix: don't spin on encrypted ENCR frames in ID3v2.3
 tags

An ENCR frame encrypted with an unknown method made parsing go on forever.
---
 scribbu/id3v23.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 9990958..e9fa58e 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1211,8 +1211,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
     bool found_encrypted = false;
+    std::size_t num_methods;
     do {
 
+      found_encrypted = false;
+      num_methods = encryption_methods_.size();
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1339,7 +1343,9 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+      // Go around again only so long as we're learning something.
+    } while (found_encrypted &&
+             encryption_methods_.size() > num_methods); // End while on encrypted ENCR frames.
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
-- 
2.43.0


From 78bc692718aa50bcc7b8b921ac5ae0a5689ec404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:47 +0000
Subject: [PATCH 071/144] fix: don't spin on encrypted ENCR frames in ID3v2.4
 tags

An ENCR frame encrypted with an unknown method made parsing go on forever.
---
 scribbu/id3v24.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 8687978..0897f5d 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1275,8 +1275,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
     bool found_encrypted = false;
+    std::size_t num_methods;
     do {
 
+      found_encrypted = false;
+      num_methods = encryption_methods_.size();
+
       const unsigned char *pcurr = p0;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
@@ -1389,7 +1393,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+      // Go around again only so long as we're learning something.
+    } while (found_encrypted &&
+             encryption_methods_.size() > num_methods); // End while on encrypted ENCR frames.
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
-- 
2.43.0


From cc8a840b402c4cb2e356268d4fd44cff533b60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:20 +0000
Subject: [PATCH 072/144] fix: register each ENCR frame once when going over
 them again

Going over the ENCR frames a second time registered them a second time, which
is an error.
---
 scribbu/id3v23.cc | 5 ++++-
 scribbu/id3v24.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index e9fa58e..273f1e0 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <set>
 
 #include <arpa/inet.h>
 #include <zlib.h>
@@ -1212,6 +1213,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     std::size_t cb_frame = 0;
     bool found_encrypted = false;
     std::size_t num_methods;
+    std::set<const unsigned char*> registered;
     do {
 
       found_encrypted = false;
@@ -1267,7 +1269,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || registered.count(pcurr)) {
           continue;
         }
 
@@ -1340,6 +1342,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
                            decompressed_size);
 
         register_encryption_method(encr);
+        registered.insert(pcurr);
 
       } // End iteration over all frames.
 
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 0897f5d..1491e0c 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <set>
 
 #include <zlib.h>
 
@@ -1276,6 +1277,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     std::size_t cb_frame = 0;
     bool found_encrypted = false;
     std::size_t num_methods;
+    std::set<const unsigned char*> registered;
     do {
 
       found_encrypted = false;
@@ -1315,7 +1317,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || registered.count(pcurr)) {
           continue;
         }
 
@@ -1390,6 +1392,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
                                unsynchronisation, data_len_ind);
 
         register_encryption_method(encr);
+        registered.insert(pcurr);
 
       } // End iteration over all frames.
 
-- 
2.43.0


From c92a40316a4c9d4a53f6e93425ed98c0591e91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:51 +0000
Subject: [PATCH 073/144] fix: tell iconv the room there really is when
 retrying with a BOM

The room left after a byte order mark was overstated when a conversion was
retried with a bigger buffer, and the result of the retry was lost.
---
 scribbu/charsets.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index fb4f7f6..4722501 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -869,9 +869,8 @@ namespace scribbu {
 
       inbuf = const_cast<char*>(text);
       inbytesleft = ntext;
-      outbytesleft = cbout;
-      char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      std::size_t outbytesleft = cbout;
+      outbytesleft = cbout - cbbom;
+      outbuf = reinterpret_cast<char*>(&(out[cbbom]));
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-- 
2.43.0


From fc26aca5070da2f245fd1f55ee872f83027fed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:13 +0000
Subject: [PATCH 074/144] fix: let scribbu genre's -v mean --v1 only

Both --v1 and --verbose claimed the letter, so that any use of it was
rejected as ambiguous. The manual gives it to --v1.
---
 src/genre.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/genre.cc b/src/genre.cc
index 6d84534..bc05313 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -844,7 +844,7 @@ namespace {
        "with --Genre")
       ("v2-only,2", po::bool_switch(), "Operate on ID3v2 tags only; incompatible "
        "with --v1")
-      ("verbose,v", po::bool_switch(), "Produce more verbose output during "
+      ("verbose", po::bool_switch(), "Produce more verbose output during "
        "operation")
       ("winamp,w", po::value<unsigned int>(), "Winamp genre, 0-191 (inclusive)");
 
-- 
2.43.0


From 1789e197e0946c1f3e643b9bd3fda076a996b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:13 +0000
Subject: [PATCH 075/144] fix: read scribbu genre's --v1 as a number

The option was declared as a single character, so that "--v1 17" was
rejected and "--v1 9" meant 57.
---
 src/genre.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index bc05313..3d3e3f5 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -838,7 +838,7 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned char>(), "Genre to use for ID3v1 tags in "
+      ("v1,v", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
@@ -949,7 +949,12 @@ namespace {
 
       unsigned char v1_genre = UNDEFINED_GENRE;
       if (vm.count("v1")) {
-        v1_genre = vm["v1"].as<unsigned char>();
+        unsigned int scratch = vm["v1"].as<unsigned int>();
+        if (256 > scratch) {
+          v1_genre = (unsigned char) scratch;
+        } else {
+          throw po::invalid_option_value("v1");
+        }
       }
 
       vector<size_t> tags;
-- 
2.43.0


From cffbb94bde07ee55b6d0e091193b6ebe82f13949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:13 +0000
Subject: [PATCH 076/144] fix: heed scribbu m3u's --source-encoding

The sub-command looked for an option by another name.
---
 src/m3u.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 64126a4..670838f 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -386,8 +386,8 @@ namespace {
       //////////////////////////////////////////////////////////////////////////
 
       boost::optional<encoding> src_enc = boost::none;
-      if (vm.count("encoding")) {
-        src_enc = vm["encoding"].as<encoding>();
+      if (!vm["source-encoding"].defaulted()) {
+        src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
         vm["output"].as<fs::path>() : fs::path();
-- 
2.43.0


From ef2559289008ec1542414bd3d5c1dcb1799aec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:13 +0000
Subject: [PATCH 077/144] fix: require scribbu m3u's arguments

Without any, the sub-command failed with a bad cast.
---
 src/m3u.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 670838f..c9de09d 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -348,7 +348,7 @@ namespace {
     po::options_description xopts("hidden options");
     xopts.add_options()
       // Work around to https://svn.boost.org/trac/boost/ticket/8535
-      ("arguments", po::value<std::vector<string>>(), "one or more "
+      ("arguments", po::value<std::vector<string>>()->required(), "one or more "
        "files or directories to be examined; if a directory is given, it will "
        "be searched recursively");
 
-- 
2.43.0


From 779dda2842fab3f82b210ff144faba8470a381bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:13 +0000
Subject: [PATCH 078/144] fix: heed scribbu popm's --tag

The indices were stored in a variable that was never used.
---
 src/popm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index b6b2feb..2769394 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -851,7 +851,7 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        vector<size_t> V = vm["tag"].as<vector<size_t>>();
+        tags = vm["tag"].as<vector<size_t>>();
       }
 
       boost::optional<unsigned char> rating;
-- 
2.43.0


From e0ae72cfbbc9fb34fe0ff5c8ad7f3218b12e3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:13 +0000
Subject: [PATCH 079/144] fix: map SCRIBBU_CREATE to the option that exists

scribbu popm & scribbu xtag failed whenever it was set in the environment.
---
 src/popm.cc | 2 +-
 src/xtag.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 2769394..ad62d83 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -802,7 +802,7 @@ namespace {
 
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
         make_pair("SCRIBBU_OWNER", "owner"),
diff --git a/src/xtag.cc b/src/xtag.cc
index 3f558b4..ebc6162 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -548,7 +548,7 @@ namespace {
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
         make_pair("SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_V2", "create-v2"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
-- 
2.43.0


From 03b5fefa8f7e2277088eab9f953d16a4097410b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 080/144] fix: quote the "frames" key in the JSON of ID3v2.2 &
 2.4 tags

---
 scribbu/json-pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..92a5251 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -86,7 +86,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
      << R"(,"flags":)" << setbase(10) << tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
@@ -139,7 +139,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
-- 
2.43.0


From e72b0617930a62b83582fbd74ed08763e2deea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 081/144] fix: print the flags of ID3v2.2 & 2.4 tags as numbers
 in JSON

They were printed as a character.
---
 scribbu/json-pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 92a5251..3d03a5a 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -83,7 +83,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   os << R"({"version":"2.2","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
      << R"(,"frames":[)";
@@ -135,7 +135,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   os << R"({"version":"2.4","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-- 
2.43.0


From ba757c2f391ae8ec11ba221fe996af652b85dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 082/144] fix: terminate the JSON of ID3v2.2 & 2.4 frames

The text of an ostrstream is not terminated unless one asks for it.
---
 scribbu/json-pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 3d03a5a..25d8d36 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -92,7 +92,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_2_frame &frm) {
               ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm;
+              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
               return stm.str();
             });
 
@@ -145,7 +145,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_4_frame &frm) {
               ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm;
+              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
               return stm.str();
             });
 
-- 
2.43.0


From e8826a054aec884877b33886d80fc8cd654e8679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 083/144] fix: escape the ID3v1 album in JSON

---
 scribbu/json-pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 25d8d36..2d5f179 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -189,7 +189,7 @@ scribbu::json_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   }
 
   os << R"({"version":")" << version << R"(","album":")" <<
-    tag.album<string>(v1enc_, dst, rsp) <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) <<
     R"(","artist":")" << escape(tag.artist<string>(v1enc_, dst, rsp)) <<
     R"(","comment":")" << escape(tag.comment<string>(v1enc_, dst, rsp)) <<
     R"(","genre":)" << setbase(10) << (int)tag.genre() <<
-- 
2.43.0


From 6b7ab194e2f02611b827d271e1158de4a92bbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 084/144] fix: quote the owner of unique file identifiers in
 JSON

---
 scribbu/json-pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 2d5f179..cc57312 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -253,7 +253,7 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
             << R"("})";
 }
 
@@ -403,7 +403,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -595,7 +595,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
-- 
2.43.0


From 1eec88bb8b14d0e54d7e3b55a377666f9f1b9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 085/144] fix: quote the identifiers of play counts in JSON

---
 scribbu/json-pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index cc57312..f68de12 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -301,7 +301,7 @@ scribbu::json_pprinter::pprint_CNT(const CNT &cnt,
 {
   using namespace std;
 
-  return os << R"({"id":"CNT,"size":)" << setbase(10) << cnt.size()
+  return os << R"({"id":"CNT","size":)" << setbase(10) << cnt.size()
             << R"(,"count":)" << cnt.count() << "}";
 }
 
@@ -472,7 +472,7 @@ scribbu::json_pprinter::pprint_PCNT(const PCNT &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -663,7 +663,7 @@ scribbu::json_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
-- 
2.43.0


From 9c7d6683042c58368ef0d37d545db42f39faa8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 086/144] fix: quote the keys of tag clouds in JSON

---
 scribbu/json-pprinter.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index f68de12..e1c8ba3 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -351,10 +351,10 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -522,10 +522,10 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -713,10 +713,10 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
-- 
2.43.0


From 347bdd698e1ed29498fcbaeab8f0b4a39eab526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 087/144] fix: quote & escape the values of tag clouds in JSON

---
 scribbu/json-pprinter.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index e1c8ba3..0b77c87 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -347,7 +347,12 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                vector<string> values;
+                transform(pr.second.begin(), pr.second.end(),
+                          back_inserter(values), [](const string &s) {
+                            return "\"" + escape(s) + "\"";
+                          });
+                return "{\"" + first + R"(":[)" + join(values, ",") + "]}";
                }
             });
 
@@ -518,7 +523,12 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                vector<string> values;
+                transform(pr.second.begin(), pr.second.end(),
+                          back_inserter(values), [](const string &s) {
+                            return "\"" + escape(s) + "\"";
+                          });
+                return "{\"" + first + R"(":[)" + join(values, ",") + "]}";
                }
             });
 
@@ -709,7 +719,12 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                vector<string> values;
+                transform(pr.second.begin(), pr.second.end(),
+                          back_inserter(values), [](const string &s) {
+                            return "\"" + escape(s) + "\"";
+                          });
+                return "{\"" + first + R"(":[)" + join(values, ",") + "]}";
                }
             });
 
-- 
2.43.0


From 6d70a145377acdfea1f51a6067c5173980e29762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 088/144] fix: escape control characters in JSON

---
 scribbu/json-pprinter.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b77c87..414dedd 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -45,6 +45,10 @@ scribbu::json_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/
 std::string scribbu::json_pprinter::escape(const std::string &s)
 {
+  using std::hex;
+  using std::setfill;
+  using std::setw;
+
   std::stringstream stm;
   for (char c : s) {
     switch (c) {
@@ -68,7 +72,11 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if (0x20 > (unsigned char)c) {
+        stm << "\\u00" << hex << setw(2) << setfill('0') << (int)c;
+      } else {
+        stm << c;
+      }
       break;
     }
   }
-- 
2.43.0


From 4553e1282cd4f2c1cb3535f4fbe69371a71c45b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:15 +0000
Subject: [PATCH 089/144] fix: escape frame identifiers in JSON

The identifiers of frames scribbu does not know are just bytes in a file.
---
 scribbu/json-pprinter.cc | 50 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 414dedd..bd9b3ef 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -228,7 +228,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_2_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -243,7 +243,7 @@ scribbu::json_pprinter::pprint_id3v2_2_text_frame(const id3v2_2_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -259,7 +259,7 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -275,7 +275,7 @@ scribbu::json_pprinter::pprint_TXX(const TXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -294,7 +294,7 @@ scribbu::json_pprinter::pprint_COM(const COM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -328,7 +328,7 @@ scribbu::json_pprinter::pprint_POP(const POP &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -364,7 +364,7 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -378,7 +378,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_3_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -393,7 +393,7 @@ scribbu::json_pprinter::pprint_id3v2_3_text_frame(const id3v2_3_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -414,7 +414,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -435,7 +435,7 @@ scribbu::json_pprinter::pprint_ENCR(const ENCR &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -452,7 +452,7 @@ scribbu::json_pprinter::pprint_TXXX(const TXXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -471,7 +471,7 @@ scribbu::json_pprinter::pprint_COMM(const COMM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -504,7 +504,7 @@ scribbu::json_pprinter::pprint_POPM(const POPM &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -540,7 +540,7 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -562,7 +562,7 @@ scribbu::json_pprinter::pprint_PRIV(const PRIV &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -576,7 +576,7 @@ scribbu::json_pprinter::pprint_unk_id3v2_4_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -591,7 +591,7 @@ scribbu::json_pprinter::pprint_id3v2_4_text_frame(const id3v2_4_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -611,7 +611,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -632,7 +632,7 @@ scribbu::json_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -648,7 +648,7 @@ scribbu::json_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &frm, std::ostream &os)
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -667,7 +667,7 @@ scribbu::json_pprinter::pprint_COMM_2_4(const COMM_2_4 &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -700,7 +700,7 @@ scribbu::json_pprinter::pprint_POPM_2_4(const POPM_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -736,7 +736,7 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -758,7 +758,7 @@ scribbu::json_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string()) << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
-- 
2.43.0


From fc40045f17edaf0f70fb1b82e619dbbba8768ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:30 +0000
Subject: [PATCH 090/144] fix: make room for the extended fields when an ID3v1
 tag becomes extended

Setting the speed, the extended genre or a time on a standard tag marked it
as extended while its text fields kept their standard sizes; writing it read
past them.
---
 scribbu/id3v1.hh | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 7b7e07a..54b6cac 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -430,8 +430,7 @@ namespace scribbu {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       ext_genre_ = convert_encoding<string_type>(text, srcenc, dst, add_bom,
                                                  rsp);
-      ext_genre_.resize(TEXT_SZ, 0);
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -445,7 +444,7 @@ namespace scribbu {
     void set_speed(unsigned char speed)
     {
       speed_ = speed;
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -474,7 +473,7 @@ namespace scribbu {
       while (i < 6) {
         start_time_[i++] = 0;
       }
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -504,7 +503,7 @@ namespace scribbu {
       while (i < 6) {
         end_time_[i++] = 0;
       }
-      extended_ = true;
+      extend();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -612,6 +611,16 @@ namespace scribbu {
     void init_standard(unsigned char *p);
     void init_extended(unsigned char *p);
 
+    /// Make this an extended tag, making room for what such a tag will hold
+    void extend()
+    {
+      title_.resize(TEXT_SZ_ENH, 0);
+      artist_.resize(TEXT_SZ_ENH, 0);
+      album_.resize(TEXT_SZ_ENH, 0);
+      ext_genre_.resize(TEXT_SZ, 0);
+      extended_ = true;
+    }
+
   private:
 
     bool                         extended_;
-- 
2.43.0


From 18aa76921147e3350622febb643955a03e492474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:30 +0000
Subject: [PATCH 091/144] fix: recognise all false syncs

A false sync is 0xff followed by three set bits, i.e. by 224 or more.
---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 7f9d77f..e56bce5 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 223 < y;
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (223 < y || 0 == y);
 }
 
 std::size_t
-- 
2.43.0


From 2b2c304bc42151f9c28be3622e7e271b0eb19411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:30 +0000
Subject: [PATCH 092/144] fix: count zeroes after an encryption method of 0xff
 as needing unsynchronisation

---
 scribbu/framesv2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index e56bce5..93d4ef0 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -748,7 +748,7 @@ scribbu::encryption_method::count_syncs(bool false_only) const
     if (false_only && is_false_sync(method_symbol_, data_.front())) {
       ++count;
     }
-    else if (!false_only && is_false_sync(method_symbol_, data_.front())) {
+    else if (!false_only && needs_unsync(method_symbol_, data_.front())) {
       ++count;
     }
   }
-- 
2.43.0


From f944859fd9c74e36871a58a9c090bc6056a0eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:30 +0000
Subject: [PATCH 093/144] fix: count false syncs in integers in the order they
 are written

They were counted in host byte order.
---
 scribbu/framesv2.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 93d4ef0..8fcb912 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -51,7 +51,10 @@ scribbu::detail::count_syncs(std::uint32_t n, bool false_only)
   using namespace std;
 
   size_t count = 0;
-  const unsigned char *p = (const unsigned char*)&n;
+  const unsigned char p[] = {
+    (unsigned char)(n >> 24), (unsigned char)(n >> 16),
+    (unsigned char)(n >>  8), (unsigned char)(n)
+  };
   for (ptrdiff_t i = 0; i < 3; ++i) {
     if (false_only) {
       if (is_false_sync(p[i], p[i+1])) {
-- 
2.43.0


From 760e20653902200ccc03f7ee65261f086e9f7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 094/144] fix: read the read-only bit of ID3v2.3 encryption
 method registrations

The bit for file alter preservation was read in its place.
---
 scribbu/id3v23.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 273f1e0..b31eba9 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1281,7 +1281,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         id3v2_3_frame::file_alter_preservation fap = (0 != (f0 & 0x40)) ?
           id3v2_3_frame::file_alter_preservation::discard :
           id3v2_3_frame::file_alter_preservation::preserve;
-        id3v2_3_frame::read_only ro = (0 != (f0 & 0x40)) ?
+        id3v2_3_frame::read_only ro = (0 != (f0 & 0x20)) ?
           id3v2_3_frame::read_only::set :
           id3v2_3_frame::read_only::clear;
 
-- 
2.43.0


From c73b5ee3d9f451f69ddddd58f9977663610feb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 095/144] fix: decompress the ID3v2.4 frames whose compression
 bit is set

The bit is 0x08, not 0x80; a data length indicator, which compression
requires, does not by itself mean that the frame is compressed.
---
 scribbu/id3v24.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 1491e0c..87dd590 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1349,7 +1349,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           if (cb_read < 1) {
@@ -1383,6 +1383,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (boost::none == data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1471,7 +1474,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         if (cb_read < 1) {
@@ -1503,7 +1506,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (boost::none == data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
-- 
2.43.0


From 8a24c1cd5aced0efedfc8c36cecb45b1810b1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 096/144] fix: write ID3v2.3 frame flags to the bits they are
 read from

---
 scribbu/framesv23.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..278aca2 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -358,27 +358,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 0x80;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 0x80;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 0x20;
     sz += 1;
     cb += 1;
   }
-- 
2.43.0


From 27676479b2b33273328613a39dc14e4a4c6bd04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 097/144] fix: write ID3v2.4 frame flags to the bits they are
 read from

---
 scribbu/framesv24.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..9cbad08 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -92,17 +92,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 0x10;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
-- 
2.43.0


From 916c9afb78081db6a33f5c3a8fd1dd1cbdc3b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 098/144] fix: set the unsynchronisation flag on ID3v2.4 tags
 written so

---
 scribbu/id3v24.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 87dd590..e5c4582 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -728,8 +728,11 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  // Write the header...
-  write_header(os, flags(), size(unsync));
+  // Write the header... taking care to add the "unsync" flag if we're
+  // applying unsynchronisation
+  unsigned char f = flags();
+  if (unsync) f |= 0x80;
+  write_header(os, f, size(unsync));
   size_t cb = 10;
 
   if (pext_header_) {
@@ -750,7 +753,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, f, size(unsync));
   }
 
   return cb;
-- 
2.43.0


From 987b9420b338ba5bddf591b3c9da222094d6f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 099/144] fix: write the decompressed size of ID3v2.3 frames
 most significant byte first

---
 scribbu/framesv23.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 278aca2..651d08d 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -403,7 +403,12 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    char dlbuf[4];
+    dlbuf[0] = (dlind & 0xff000000) >> 24;
+    dlbuf[1] = (dlind & 0x00ff0000) >> 16;
+    dlbuf[2] = (dlind & 0x0000ff00) >>  8;
+    dlbuf[3] =  dlind & 0x000000ff;
+    os.write(dlbuf, 4);
   }
 
   if (encrypted()) {
-- 
2.43.0


From 9c7dba013ea96ff36e0a6dfe9af27e8981cf77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:56 +0000
Subject: [PATCH 100/144] fix: write the data length indicator of ID3v2.4
 frames as a sync-safe integer

---
 scribbu/framesv24.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 9cbad08..47a4c5c 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -144,7 +144,9 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   }
 
   if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+    unsigned char dlbuf[4];
+    detail::sync_safe_from_unsigned(dlind, dlbuf);
+    os.write((char*)dlbuf, 4);
   }
 
   return cb;
-- 
2.43.0


From 73f7cabd80d6e473fc12d194ed12b770b76cbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:01 +0000
Subject: [PATCH 101/144] fix: write the group identifier of ID3v2.4 frames
 before the encryption method

That is the order they are read in, and the order of their flags.
---
 scribbu/framesv24.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 47a4c5c..5386d42 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -133,13 +133,13 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-- 
2.43.0


From cb147ac8f34ec4f40bdc59af810d9f00da764952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:26 +0000
Subject: [PATCH 102/144] fix: terminate the owner when writing encryption
 method registrations

The size of these frames counts the terminating NUL, and their parser
needs it.
---
 scribbu/framesv2.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 8fcb912..9f7e159 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -721,11 +721,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 1 + 1 + data_.size();
 
 }
 
-- 
2.43.0


From f2e34b8fc7d343c87b67f1bbc2a9660b87c45b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:26 +0000
Subject: [PATCH 103/144] fix: count the extra header fields in the size of
 ID3v2.4 frames

The size is that of the frame as written, so a compressed payload and
the group, encryption and data length fields count.
---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 5386d42..e19c914 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -128,7 +128,7 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   // ID3v2.3 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
-- 
2.43.0


From b10e892c4e10111b837f48c3076337e1a83c574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:26 +0000
Subject: [PATCH 104/144] fix: write the ID3v2.3 extended header with
 unsynchronisation when asked

The two serialized forms were exchanged.
---
 scribbu/id3v23.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index b31eba9..dbda7de 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -258,7 +258,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 9d3fb8b3429c4728bc2bcadbc8f1cdc7db804d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:26 +0000
Subject: [PATCH 105/144] fix: write ID3v2.4 extended headers in the form they
 are parsed

The lengths that precede the flag data were missing, the CRC took four
bytes of five, and the size was the one that had been read even when
another one is written.
---
 scribbu/id3v24.cc | 39 ++++++++++++++++++++++++++++++++-------
 scribbu/id3v24.hh |  2 ++
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index e5c4582..db5ba87 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -301,6 +301,22 @@ scribbu::id3v2_4_tag::ext_header::size() const
   return size_;
 }
 
+std::size_t
+scribbu::id3v2_4_tag::ext_header::serialized_size() const
+{
+  std::size_t cb = 6;
+  if (is_update()) {
+    cb += 1;
+  }
+  if (has_crc()) {
+    cb += 6;
+  }
+  if (restricted()) {
+    cb += 2;
+  }
+  return cb;
+}
+
 std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc() const
 {
@@ -351,7 +367,7 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   size_t cb = 0;
 
   unsigned char buf[6];
-  sync_safe_from_unsigned(size(), buf);
+  sync_safe_from_unsigned(serialized_size(), buf);
 
   buf[4] = 0x01;
 
@@ -379,9 +395,17 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    uint32_t x = crc(tag);
+    unsigned char crcbuf[6] = {
+      0x05,
+      (unsigned char)((x >> 28) & 0x0f),
+      (unsigned char)((x >> 21) & 0x7f),
+      (unsigned char)((x >> 14) & 0x7f),
+      (unsigned char)((x >>  7) & 0x7f),
+      (unsigned char)( x        & 0x7f)
+    };
+    os.write((char*)crcbuf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -448,8 +472,9 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
-    os.write((char*)&tagr, 1);
-    cb += 1;
+    unsigned char restbuf[2] = { 0x01, tagr };
+    os.write((char*)restbuf, 2);
+    cb += 2;
   }
 
   return cb;
@@ -628,7 +653,7 @@ scribbu::id3v2_4_tag::size(bool unsync) const
     cb += 10;
   }
   if (pext_header_) {
-    cb += pext_header_->size();
+    cb += pext_header_->serialized_size();
   }
 
   // we of course include all our frames. We need to treat the last frame
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index afd8ab5..8c09719 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -194,6 +194,8 @@ namespace scribbu {
       //// Retrieve the size of this extended header-- will throw if the size
       //// calculation is dirty
       std::size_t size() const;
+      /// Compute the number of bytes write() will produce
+      std::size_t serialized_size() const;
       bool is_update() const
       { return is_update_; }
       bool has_crc() const
-- 
2.43.0


From a2ea07ef8a157ccf38425f8a35ae7de13807fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:37 +0000
Subject: [PATCH 106/144] fix: write the size of ID3v2.4 tags the specification
 asks for

The size in the header counts the padding once and the footer not at
all.
---
 scribbu/id3v24.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index db5ba87..d5957f3 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -757,7 +757,10 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
   // applying unsynchronisation
   unsigned char f = flags();
   if (unsync) f |= 0x80;
-  write_header(os, f, size(unsync));
+  // NB. the footer does not count towards the size in the header, and size()
+  // counts the padding twice
+  size_t cb_tag = size(unsync) - padding() - (has_footer() ? 10 : 0);
+  write_header(os, f, cb_tag);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -778,7 +781,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, f, size(unsync));
+    write_footer(os, f, cb_tag);
   }
 
   return cb;
-- 
2.43.0


From a3b5537d2a51985b62638214ba506e180eeb7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:45 +0000
Subject: [PATCH 107/144] fix: discard the serialized form of a text frame when
 its text is set

A frame that had been sized or written before kept writing the old text.
---
 scribbu/framesv22.cc | 3 +++
 scribbu/framesv23.cc | 3 +++
 scribbu/framesv24.cc | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..4794fbc 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -341,12 +341,15 @@ scribbu::id3v2_2_text_frame::set(const std::string &text,
   if (ok) {
     unicode_ = 0;
     text_.swap(test);
+    dirty(true);
     return;
   }
 
   test = convert_encoding(text, src, encoding::UCS_2, add_bom, rsp);
   unicode_ = 1;
   text_.swap(test);
+
+  dirty(true);
 }
 
 /*static*/ std::unique_ptr<scribbu::id3v2_2_text_frame>
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 651d08d..9c9fcf0 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -565,12 +565,15 @@ scribbu::id3v2_3_text_frame::set(const std::string &text,
   if (ok) {
     unicode_ = 0;
     text_.swap(test);
+    dirty(true);
     return;
   }
 
   test = convert_encoding(text, src, encoding::UCS_2, add_bom, rsp);
   unicode_ = 1;
   text_.swap(test);
+
+  dirty(true);
 }
 
 
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e19c914..422a962 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -334,6 +334,8 @@ scribbu::id3v2_4_text_frame::set(const std::string &text,
 
   unicode_ = encshim2(dst);
   text_.swap(data);
+
+  dirty(true);
 }
 
 /*static*/
-- 
2.43.0


From 203c59f41d3f0db38db872b67bf7dec1592e80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:45 +0000
Subject: [PATCH 108/144] fix: discard the serialized form of a frame when its
 payload is modified

Comments, play counters, ratings and tag clouds are modified through
structures that several versions share, which cannot tell the frame.
---
 scribbu/framesv22.hh | 71 ++++++++++++++++++++++++++++++++++++++++++++
 scribbu/framesv23.hh | 71 ++++++++++++++++++++++++++++++++++++++++++++
 scribbu/framesv24.hh | 71 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 213 insertions(+)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index aaf8cac..ce4d897 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -623,6 +623,18 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    void description(const std::string &text, encoding src)
+    {
+      comments::description(text, src);
+      dirty(true);
+    }
+    void text(const std::string &text, encoding src)
+    {
+      comments::text(text, src);
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -658,6 +670,19 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    using play_count::count;
+    void count(std::size_t n)
+    {
+      play_count::count(n);
+      dirty(true);
+    }
+    void inc()
+    {
+      play_count::inc();
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -707,6 +732,25 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    using popularimeter::rating;
+    using popularimeter::count;
+    void rating(unsigned char r)
+    {
+      popularimeter::rating(r);
+      dirty(true);
+    }
+    void count(std::size_t n)
+    {
+      popularimeter::count(n);
+      dirty(true);
+    }
+    void inc()
+    {
+      popularimeter::inc();
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -757,6 +801,33 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    bool add_key(const std::string &key)
+    {
+      dirty(true);
+      return tag_cloud::add_key(key);
+    }
+    bool add_value(const std::string &key, const std::string &val)
+    {
+      dirty(true);
+      return tag_cloud::add_value(key, val);
+    }
+    void reset(std::initializer_list<value_type> init)
+    {
+      tag_cloud::reset(init);
+      dirty(true);
+    }
+    void merge(const std::string &tags)
+    {
+      tag_cloud::merge(tags);
+      dirty(true);
+    }
+    void update(const std::string &tags)
+    {
+      tag_cloud::update(tags);
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index f04c6b3..a2159bd 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -1039,6 +1039,18 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    void description(const std::string &text, encoding src)
+    {
+      comments::description(text, src);
+      dirty(true);
+    }
+    void text(const std::string &text, encoding src)
+    {
+      comments::text(text, src);
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -1094,6 +1106,19 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    using play_count::count;
+    void count(std::size_t n)
+    {
+      play_count::count(n);
+      dirty(true);
+    }
+    void inc()
+    {
+      play_count::inc();
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -1166,6 +1191,25 @@ namespace scribbu {
         convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
     }
 
+    // Modifications discard the cached serialization
+    using popularimeter::rating;
+    using popularimeter::count;
+    void rating(unsigned char r)
+    {
+      popularimeter::rating(r);
+      dirty(true);
+    }
+    void count(std::size_t n)
+    {
+      popularimeter::count(n);
+      dirty(true);
+    }
+    void inc()
+    {
+      popularimeter::inc();
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
@@ -1255,6 +1299,33 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    bool add_key(const std::string &key)
+    {
+      dirty(true);
+      return tag_cloud::add_key(key);
+    }
+    bool add_value(const std::string &key, const std::string &val)
+    {
+      dirty(true);
+      return tag_cloud::add_value(key, val);
+    }
+    void reset(std::initializer_list<value_type> init)
+    {
+      tag_cloud::reset(init);
+      dirty(true);
+    }
+    void merge(const std::string &tags)
+    {
+      tag_cloud::merge(tags);
+      dirty(true);
+    }
+    void update(const std::string &tags)
+    {
+      tag_cloud::update(tags);
+      dirty(true);
+    }
+
   protected:
     /// Serialize this frame to \a os, exclusive of any compression, encryption
     /// or unsynchronisation; return the number of bytes written
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index d8e17db..116e895 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -776,6 +776,18 @@ namespace scribbu {
                                            unicode(), dst, rsp, src);
     }
 
+    // Modifications discard the cached serialization
+    void description(const std::string &text, encoding src)
+    {
+      comments::description(text, src);
+      dirty(true);
+    }
+    void text(const std::string &text, encoding src)
+    {
+      comments::text(text, src);
+      dirty(true);
+    }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
@@ -839,6 +851,19 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    using play_count::count;
+    void count(std::size_t n)
+    {
+      play_count::count(n);
+      dirty(true);
+    }
+    void inc()
+    {
+      play_count::inc();
+      dirty(true);
+    }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
@@ -917,6 +942,25 @@ namespace scribbu {
         convert_encoding<string>(&(buf[0]), buf.size(), src, dst, rsp);
     }
 
+    // Modifications discard the cached serialization
+    using popularimeter::rating;
+    using popularimeter::count;
+    void rating(unsigned char r)
+    {
+      popularimeter::rating(r);
+      dirty(true);
+    }
+    void count(std::size_t n)
+    {
+      popularimeter::count(n);
+      dirty(true);
+    }
+    void inc()
+    {
+      popularimeter::inc();
+      dirty(true);
+    }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
@@ -1003,6 +1047,33 @@ namespace scribbu {
     /// compression, and/or encryption exclusive of the header
     virtual std::size_t size() const;
 
+    // Modifications discard the cached serialization
+    bool add_key(const std::string &key)
+    {
+      dirty(true);
+      return tag_cloud::add_key(key);
+    }
+    bool add_value(const std::string &key, const std::string &val)
+    {
+      dirty(true);
+      return tag_cloud::add_value(key, val);
+    }
+    void reset(std::initializer_list<value_type> init)
+    {
+      tag_cloud::reset(init);
+      dirty(true);
+    }
+    void merge(const std::string &tags)
+    {
+      tag_cloud::merge(tags);
+      dirty(true);
+    }
+    void update(const std::string &tags)
+    {
+      tag_cloud::update(tags);
+      dirty(true);
+    }
+
   protected:
 
     /// Serialize this frame to \a os, exclusive of any compression, encryption
-- 
2.43.0


From 1cf8a6ad57d96bc9cb82e5ded3930ca59c161c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:45 +0000
Subject: [PATCH 109/144] fix: compute the CRC of an ID3v2.4 tag afresh when it
 is written

The one that had been read was written again whatever had been modified.
---
 scribbu/id3v24.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index d5957f3..a79e606 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -330,18 +330,17 @@ std::uint32_t
 scribbu::id3v2_4_tag::ext_header::crc(const id3v2_4_tag &tag) const
 {
   using namespace std;
-  if (crc_dirty_) {
-    crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
-                      [](uint32_t checksum, const id3v2_4_frame &F)
-                      { return F.crc(checksum); });
-    size_t cbpad = tag.padding();
-    while (cbpad) {
-      size_t toadd = min(cbpad, CBPAD);
-      crc_ = crc32(crc_, (const unsigned char*)PAD, toadd);
-      cbpad -= toadd;
-    }
-    crc_dirty_ = false;
+  // NB. there is no telling whether \a tag has changed since last time
+  crc_ = accumulate(tag.begin(), tag.end(), crc32(0L, Z_NULL, 0),
+                    [](uint32_t checksum, const id3v2_4_frame &F)
+                    { return F.crc(checksum); });
+  size_t cbpad = tag.padding();
+  while (cbpad) {
+    size_t toadd = min(cbpad, CBPAD);
+    crc_ = crc32(crc_, (const unsigned char*)PAD, toadd);
+    cbpad -= toadd;
   }
+  crc_dirty_ = false;
   return crc_;
 }
 
-- 
2.43.0


From 9cd3231a25dba5fff3c4b2b8068a1d1f72bbb843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:45 +0000
Subject: [PATCH 110/144] fix: write ID3v2.2 frames with unsynchronisation when
 asked

The two serialized forms were exchanged.
---
 scribbu/framesv22.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 4794fbc..6c7f413 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
                                         bool /*last_no_pad = false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +103,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 08d782091590c2fa20f90e7be19ca9924927029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:44:48 +0000
Subject: [PATCH 111/144] fix: put the enhanced ID3v1 attributes in their own
 slots

reading an enhanced tag into Scheme put each attribute one slot too early, the extended
genre over the track number.
---
 scribbu/scheme.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index c896cc5..85ef0e7 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -350,22 +350,22 @@ extern "C" {
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 6, scm_enh_genre);
-        SCM_SET_SLOT(x, 7, scm_from_uchar(speed));
+        SCM_SET_SLOT(x, 7, scm_enh_genre);
+        SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
         string start_time = pv1->start_time<string>();
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 8, scm_start_time);
+        SCM_SET_SLOT(x, 9, scm_start_time);
 
         string end_time = pv1->end_time<string>();
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 9, scm_end_time);
+        SCM_SET_SLOT(x, 10, scm_end_time);
 
       }
 
-- 
2.43.0


From b2ba57d25ffe6727f083fddc1758d6eef684b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:44:48 +0000
Subject: [PATCH 112/144] fix: take the unsynchronisation of an unknown ID3v2.4
 frame from its own slot

It was taken from the read-only slot.
---
 scribbu/scheme-serde.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 333f5cb..94fbfa0 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -2070,7 +2070,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     ro = read_only::set;
   }
   bool unsync = false;
-  if (SCM_BOOL_T == SCM_SLOT(scm, 3)) {
+  if (SCM_BOOL_T == SCM_SLOT(scm, 4)) {
     unsync = true;
   }
 
-- 
2.43.0


From 8054c86e05bb0e7d7697f27946281b8b9c10b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:44:48 +0000
Subject: [PATCH 113/144] fix: name private frames as such in Scheme

They were given the symbol of tag cloud frames.
---
 scribbu/scheme-serde.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 94fbfa0..d9234df 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -737,7 +737,7 @@ namespace {
     using namespace std;
     using namespace scribbu;
 
-    SCM x = init_frame("<priv-frame>", sym_tag_cloud_frame,
+    SCM x = init_frame("<priv-frame>", sym_priv_frame,
                        f.tag_alter_preserve(), f.file_alter_preserve(),
                        f.readonly());
 
@@ -761,7 +761,7 @@ namespace {
     using namespace std;
     using namespace scribbu;
 
-    SCM x = init_frame("<priv-frame>", sym_tag_cloud_frame,
+    SCM x = init_frame("<priv-frame>", sym_priv_frame,
                        f.tag_alter_preserve(), f.file_alter_preserve(),
                        f.readonly(), f.unsynchronised());
 
-- 
2.43.0


From 3c136626ef5c3e8d15f9e5b2fb70d718c61b7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:44:48 +0000
Subject: [PATCH 114/144] fix: read tag clouds from Scheme in the form they are
 given to it

The ID3v2.2 & ID3v2.4 versions passed a raw zero as an index and expected the
values in a nested list; the ID3v2.3 version was right.
---
 scribbu/scheme-serde.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index d9234df..9a9cab5 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1247,10 +1247,10 @@ namespace {
 
       SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_list_ref(scm, scm_from_int(0)));
 
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_list_tail(scm, scm_from_int(1));
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
@@ -1370,10 +1370,10 @@ namespace {
 
       SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_list_ref(scm, scm_from_int(0)));
 
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_list_tail(scm, scm_from_int(1));
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
-- 
2.43.0


From 081000f1f4795d5d6a351e1861e994a53d7f2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:55 +0000
Subject: [PATCH 115/144] fix: release the digest context on every path & check
 the final digest

The context leaked when reading the track threw, and a failure to produce the digest
went unnoticed.
---
 scribbu/scribbu.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 19d0971..0fa6560 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -241,13 +241,13 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   std::vector<unsigned char> buf(BUFSIZE);
 
   // Compute an MD5 checksum of the file contents from 'here' to 'tag'
-  EVP_MD_CTX *mdctx = EVP_MD_CTX_create();
+  std::unique_ptr<EVP_MD_CTX, void (*)(EVP_MD_CTX*)> mdctx(
+    EVP_MD_CTX_create(), [](EVP_MD_CTX *p) { EVP_MD_CTX_destroy(p); });
   if (! mdctx) {
     throw openssl_error();
   }
 
-  if (! EVP_DigestInit_ex(mdctx, EVP_md5(), 0)) {
-    EVP_MD_CTX_destroy(mdctx);
+  if (! EVP_DigestInit_ex(mdctx.get(), EVP_md5(), 0)) {
     throw openssl_error();
   }
 
@@ -256,8 +256,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
     std::streamsize nbytes = BUFSIZE > nleft ? nleft : BUFSIZE;
 
     is.read((char*)buf.data(), nbytes);
-    if (! EVP_DigestUpdate(mdctx, buf.data(), nbytes)) {
-      EVP_MD_CTX_destroy(mdctx);
+    if (! EVP_DigestUpdate(mdctx.get(), buf.data(), nbytes)) {
       throw openssl_error();
     }
 
@@ -266,9 +265,9 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   }
 
   unsigned int  md_len;
-  EVP_DigestFinal_ex(mdctx, md5.begin(), &md_len);
-
-  EVP_MD_CTX_destroy(mdctx);
+  if (! EVP_DigestFinal_ex(mdctx.get(), md5.begin(), &md_len)) {
+    throw openssl_error();
+  }
 
   is.exceptions(exc_mask);
 
-- 
2.43.0


From fa3e69a48bfd1705e45e52e3b510da0cd438125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:55 +0000
Subject: [PATCH 116/144] fix: check that a temporary file name could be made
 up

std::tmpnam returns null when it cannot, which was handed on to a path.
---
 scribbu/tagset.hh | 5 ++++-
 src/genre.cc      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 1d971d3..ec2421a 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -367,7 +367,10 @@ namespace scribbu {
     // truncate on open, hoping to merely stomp on the other process' file in
     // the event I hit it (the race condition).
     char buf[L_tmpnam];
-    fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+    if (! std::tmpnam(buf)) {
+      throw std::runtime_error("failed to make up a temporary file name");
+    }
+    fs::path tmpnam = fs::temp_directory_path() / buf;
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
 
diff --git a/src/genre.cc b/src/genre.cc
index 3d3e3f5..883d6d8 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -476,7 +476,10 @@ namespace {
     // trucnate on open, hoping to merely stomp on the other process' file in
     // the event I hit it (the race condition).
     char buf[L_tmpnam];
-    fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+    if (! std::tmpnam(buf)) {
+      throw std::runtime_error("failed to make up a temporary file name");
+    }
+    fs::path tmpnam = fs::temp_directory_path() / buf;
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
     print_winamp_genres(tmpfs);
-- 
2.43.0


From 4d76a38327e834d9a8a4b1cb67fcd2a926b45727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:55 +0000
Subject: [PATCH 117/144] fix: do not format a modification time that cannot be
 represented

localtime returns null for such a time, which was handed on to std::put_time.
---
 src/dump.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 1c84f75..3eec742 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -240,9 +240,12 @@ namespace {
       unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(ifs);
 
       if (format::json != fmt_) {
-        cout << pth
-             << ":\nLast Modified: " << put_time(localtime(&mtime), TMFMT)
-             << endl;
+        cout << pth << ":\nLast Modified: ";
+        if (const tm *ptm = localtime(&mtime)) {
+          cout << put_time(ptm, TMFMT) << endl;
+        } else {
+          cout << "unknown" << endl;
+        }
       }
 
       if (dump_id3v2_) {
-- 
2.43.0


From fb589e629799f201955027c9c5996d0b78b131da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:18 +0000
Subject: [PATCH 118/144] fix: recognise the character set in a locale name

The look-up kept the dot in front of the character set, so that it never succeeded, and ten
names in the table had a stray comma.
---
 scribbu/charsets.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 4722501..2dfd784 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -59,18 +59,18 @@ namespace {
       {"ISO8859-16", encoding::ISO_8859_16 },
       {"CP1131",     encoding::CP1131      },
       {"CP1133",     encoding::CP1133      },
-      {"CP1250,",    encoding::CP1250      },
+      {"CP1250",     encoding::CP1250      },
       {"CP1251",     encoding::CP1251      },
-      {"CP1252,",    encoding::CP1252      },
-      {"CP1253,",    encoding::CP1253      },
-      {"CP1254,",    encoding::CP1254      },
-      {"CP1255,",    encoding::CP1255      },
-      {"CP1256,",    encoding::CP1256      },
-      {"CP1257,",    encoding::CP1257      },
+      {"CP1252",     encoding::CP1252      },
+      {"CP1253",     encoding::CP1253      },
+      {"CP1254",     encoding::CP1254      },
+      {"CP1255",     encoding::CP1255      },
+      {"CP1256",     encoding::CP1256      },
+      {"CP1257",     encoding::CP1257      },
       {"CP1258",     encoding::CP1258      },
-      {"CP850,",     encoding::CP850       },
-      {"CP862,",     encoding::CP862       },
-      {"CP866,",     encoding::CP866       },
+      {"CP850",      encoding::CP850       },
+      {"CP862",      encoding::CP862       },
+      {"CP866",      encoding::CP866       },
       {"CP874",      encoding::CP874       },
       {"CP932",      encoding::CP932       },
       {"CP936",      encoding::CP936       },
@@ -83,7 +83,7 @@ namespace {
       return make_pair(true, encoding::UTF_8);
     }
 
-    string key = name.substr(i);
+    string key = name.substr(i + 1);
     if (0 == TBL.count(key)) {
       return make_pair(false, encoding::UTF_8);
     }
-- 
2.43.0


From f9159595df607ec76b7338f54f2f0291caa90b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:18 +0000
Subject: [PATCH 119/144] fix: use the right UTF-32 byte order marks

The big-endian mark written was not one, and the little-endian mark was not recognised.
---
 scribbu/charsets.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 2dfd784..cd09922 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -729,8 +729,8 @@ namespace scribbu {
           0x00 == (unsigned char)outbuf[1] &&
           0xfe == (unsigned char)outbuf[2] &&
           0xff == (unsigned char)outbuf[3]) ||
-         (0xfe == (unsigned char)outbuf[0] &&
-          0xff == (unsigned char)outbuf[1] &&
+         (0xff == (unsigned char)outbuf[0] &&
+          0xfe == (unsigned char)outbuf[1] &&
           0x00 == (unsigned char)outbuf[2] &&
           0x00 == (unsigned char)outbuf[3]))) {
       outbuf += 4;
@@ -785,7 +785,7 @@ namespace scribbu {
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
     const unsigned char UTF8[]    = { 0xef, 0xbb, 0xbf };
     const unsigned char UTF32LE[] = { 0xff, 0xfe, 0x00, 0x00 };
-    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xff, 0xfe };
+    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xfe, 0xff };
 
     using namespace std;
 
-- 
2.43.0


From a4ce98304e6adfa58f9bd293b53f70c606c4e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:18 +0000
Subject: [PATCH 120/144] fix: write all language codes in lower case

Five languages have enumerators in upper case, to keep clear of keywords & macros; their codes
were written like that, too, which is not what ISO 639-2 has.
---
 scribbu/charsets.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index cd09922..6337edb 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1218,7 +1218,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(arp);
     F(art);
     F(arw);
-    F(ASM);
+    case language::ASM:
+      G("asm");
+      break;
     F(ast);
     F(ath);
     F(aus);
@@ -1304,7 +1306,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(deu);
     F(dgr);
     F(din);
-    F(DIV);
+    case language::DIV:
+      G("div");
+      break;
     F(doi);
     F(dra);
     F(dsb);
@@ -1472,7 +1476,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(mal);
     F(man);
     F(mao);
-    F(MAP);
+    case language::MAP:
+      G("map");
+      break;
     F(mar);
     F(mas);
     F(may);
@@ -1481,7 +1487,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(men);
     F(mga);
     F(mic);
-    F(MIN);
+    case language::MIN:
+      G("min");
+      break;
     F(mis);
     F(mkd);
     F(mkh);
@@ -1513,7 +1521,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(ndo);
     F(nds);
     F(nep);
-    F(NEW);
+    case language::NEW:
+      G("new");
+      break;
     F(nia);
     F(nic);
     F(niu);
-- 
2.43.0


From 3eadbe6013a89f58df59176beac36d1967256ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:18 +0000
Subject: [PATCH 121/144] fix: read ID3v1 text with a little-endian mark as
 such

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 4993986..6c89b8c 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -336,7 +336,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
       v1enc = v1_encoding::utf_16_be;
     }
     else if (2 <= cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
-      v1enc = v1_encoding::utf_16_be;
+      v1enc = v1_encoding::utf_16_le;
     }
   }
 
-- 
2.43.0


From 270c2aefd33c377de55736982360e9f70b18ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:18 +0000
Subject: [PATCH 122/144] fix: write ISO-8859-1 ID3v2.4 text frames in that
 encoding

They were marked as ISO-8859-1, but written in ISO-8859-8.
---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 422a962..313ac02 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -291,7 +291,7 @@ scribbu::encoding
 scribbu::id3v2_4_text_frame::encshim(frame_encoding x)
 {
   if (frame_encoding::ISO_8859_1 == x) {
-    return scribbu::encoding::ISO_8859_8;
+    return scribbu::encoding::ISO_8859_1;
   }
   else if (frame_encoding::UTF_16_BOM == x) {
     return scribbu::encoding::UTF_16;
-- 
2.43.0


From 2c06cd769274ccc8d3250229777931e80cd84fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:56 +0000
Subject: [PATCH 123/144] fix: print no column for comments when none are asked
 for

With a maximum of no comments, rows with an ID3v2 tag had one column more than the header and
than rows without.
---
 scribbu/csv-pprinter.cc | 18 ++++++------------
 scribbu/tdf-pprinter.cc | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..08d5843 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -127,16 +127,14 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -179,16 +177,14 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -231,16 +227,14 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 7750e03..ff73711 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -82,16 +82,14 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -134,16 +132,14 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -186,16 +182,14 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
-- 
2.43.0


From 87e10e598c011345f0ec597ee3b5fd71658bfe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:56 +0000
Subject: [PATCH 124/144] fix: print numbers in separated output in decimal,
 and bytes in hexadecimal

After the flags, play counts & the numbers of frames were printed in hexadecimal, without a
prefix, and so was whatever was printed next. Binary identifiers & keys, however, were printed
as they are after "0x", separators & newlines included.
---
 scribbu/csv-pprinter.cc | 35 ++++++++++++++++++++++-------------
 scribbu/tdf-pprinter.cc | 35 ++++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 08d5843..6155020 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -104,7 +104,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        dec << sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -154,7 +154,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        dec << sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -204,7 +204,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        dec << sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -254,6 +254,7 @@ scribbu::csv_pprinter::pprint_track_data(const track_data &data,
   for (auto x: md5) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -316,10 +317,11 @@ scribbu::csv_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -380,6 +382,7 @@ scribbu::csv_pprinter::pprint_POP(const POP &f, std::ostream &os)
   for (auto x: counter) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -440,10 +443,11 @@ scribbu::csv_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -466,10 +470,11 @@ scribbu::csv_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -531,6 +536,7 @@ scribbu::csv_pprinter::pprint_POPM(const POPM &f, std::ostream &os)
   for (auto x: counter) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -603,10 +609,11 @@ scribbu::csv_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -629,10 +636,11 @@ scribbu::csv_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -695,6 +703,7 @@ scribbu::csv_pprinter::pprint_POPM_2_4(const POPM_2_4 &f, std::ostream &os)
   for (auto x: counter) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index ff73711..4240739 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -59,7 +59,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        dec << sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -109,7 +109,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        dec << sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -159,7 +159,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        dec << sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -209,6 +209,7 @@ scribbu::tdf_pprinter::pprint_track_data(const track_data &data,
   for (auto x: md5) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -271,10 +272,11 @@ scribbu::tdf_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -335,6 +337,7 @@ scribbu::tdf_pprinter::pprint_POP(const POP &f, std::ostream &os)
   for (auto x: counter) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -394,10 +397,11 @@ scribbu::tdf_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -420,10 +424,11 @@ scribbu::tdf_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << f.email<string>(dst, rsp, src) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -485,6 +490,7 @@ scribbu::tdf_pprinter::pprint_POPM(const POPM &f, std::ostream &os)
   for (auto x: counter) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -559,10 +565,11 @@ scribbu::tdf_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -585,10 +592,11 @@ scribbu::tdf_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << f.email<string>(dst, rsp, src) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
@@ -651,6 +659,7 @@ scribbu::tdf_pprinter::pprint_POPM_2_4(const POPM_2_4 &f, std::ostream &os)
   for (auto x: counter) {
     os << setw(2) << (unsigned)x;
   }
+  os << dec;
 
   return os;
 }
-- 
2.43.0


From 376b3e47f71830e4227197cf43c9e98a307f7dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:56 +0000
Subject: [PATCH 125/144] fix: escape all text in comma-separated output

Languages, the owners of private frames & text with a carriage return were printed as they are.
---
 scribbu/csv-pprinter.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 6155020..f292eaf 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -51,7 +51,7 @@ scribbu::csv_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/ std::string
 scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/)
 {
-  const char NEEDS_ESC[] = { sep, '\n', 0 };
+  const char NEEDS_ESC[] = { sep, '\n', '\r', 0 };
   std::size_t comma = s.find_first_of(NEEDS_ESC);
   if (std::string::npos == comma) {
     return s;
@@ -348,7 +348,7 @@ scribbu::csv_pprinter::pprint_COM(const COM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1],lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -501,7 +501,7 @@ scribbu::csv_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1],lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -565,7 +565,7 @@ scribbu::csv_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 {
   using namespace std;
 
-  os << f.email<string>();
+  os << escape(f.email<string>());
 
   return os;
 
@@ -668,7 +668,7 @@ scribbu::csv_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -732,7 +732,7 @@ scribbu::csv_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &f, std::ostream &os)
 {
   using namespace std;
 
-  os << f.email<string>();
+  os << escape(f.email<string>());
 
   return os;
 
-- 
2.43.0


From 660faa666a248f9951c4966090d6a8c3ae476e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:56 +0000
Subject: [PATCH 126/144] fix: keep separators in text from splitting fields of
 delimited output

Text with a tab or a newline in it was printed as it is, so that rows came apart.
---
 scribbu/tdf-pprinter.cc | 101 ++++++++++++++++++++++------------------
 scribbu/tdf-pprinter.hh |   5 ++
 2 files changed, 61 insertions(+), 45 deletions(-)

diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 4240739..9a0d0a3 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -45,6 +45,17 @@ scribbu::tdf_pprinter::tdf_pprinter(
   ncomm_(ncomm), v1enc_(v1enc), v2enc_(v2enc), sep_(ascii ? 0x1f : 0x09)
 { }
 
+std::string
+scribbu::tdf_pprinter::escape(std::string s) const
+{
+  for (auto &c: s) {
+    if (sep_ == c || '\n' == c || '\r' == c) {
+      c = ' ';
+    }
+  }
+  return s;
+}
+
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
                                        std::ostream &os)
@@ -88,7 +99,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -138,7 +149,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -188,7 +199,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -224,11 +235,11 @@ scribbu::tdf_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   tie(dst, rsp) = encoding_from_stream(os);
 
   os << tag.v1_1() << sep_ << tag.extended() << sep_ <<
-    tag.artist<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.title<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.album<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.year<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.comment<string>(v1enc_, dst, rsp) << sep_ <<
+    escape(tag.artist<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.title<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.year<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.comment<string>(v1enc_, dst, rsp)) << sep_ <<
     dec << (unsigned)tag.genre();
 
   return os;
@@ -250,7 +261,7 @@ scribbu::tdf_pprinter::pprint_id3v2_2_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -267,7 +278,7 @@ scribbu::tdf_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.owner<string>(dst, rsp, src) << sep_;
+  os << escape(f.owner<string>(dst, rsp, src)) << sep_;
 
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
@@ -288,7 +299,7 @@ scribbu::tdf_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -303,9 +314,9 @@ scribbu::tdf_pprinter::pprint_COM(const COM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
-    f.description<string>(dst, rsp, v2enc_) << sep_ <<
-    f.text<string>(dst, rsp, v2enc_);
+  return os << escape(string(lang, 3)) << sep_ <<
+    escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
+    escape(f.text<string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -327,7 +338,7 @@ scribbu::tdf_pprinter::pprint_POP(const POP &f, std::ostream &os)
   if (v2enc_) {
     src = *v2enc_;
   }
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned)f.rating() << sep_;
 
   vector<unsigned char> counter;
@@ -352,10 +363,10 @@ scribbu::tdf_pprinter::pprint_XTG(const XTG &f, std::ostream &os)
   std::tie(dst, rsp) = encoding_from_stream(os);
 
   string own = f.owner(), tags = f.urlencoded();
-  os << convert_encoding<string>(own.c_str(), own.length(), encoding::UTF_8,
-                                 dst, rsp) << sep_ <<
-    convert_encoding<string>(tags.c_str(), tags.length(), encoding::UTF_8,
-                             dst, rsp);
+  os << escape(convert_encoding<string>(own.c_str(), own.length(),
+                                        encoding::UTF_8, dst, rsp)) <<
+    sep_ << escape(convert_encoding<string>(tags.c_str(), tags.length(),
+                                            encoding::UTF_8, dst, rsp));
 
   return os;
 }
@@ -375,7 +386,7 @@ scribbu::tdf_pprinter::pprint_id3v2_3_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -392,7 +403,7 @@ scribbu::tdf_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.owner<string>(dst, rsp, src) << sep_;
+  os << escape(f.owner<string>(dst, rsp, src)) << sep_;
 
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
@@ -423,7 +434,7 @@ scribbu::tdf_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   vector<unsigned char> buf;
   f.datab(back_inserter(buf));
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << (unsigned)x;
@@ -440,7 +451,7 @@ scribbu::tdf_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -455,9 +466,9 @@ scribbu::tdf_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
-    f.description<string>(dst, rsp, v2enc_) << sep_ <<
-    f.text<string>(dst, rsp, v2enc_);
+  return os << escape(string(lang, 3)) << sep_ <<
+    escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
+    escape(f.text<string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -480,7 +491,7 @@ scribbu::tdf_pprinter::pprint_POPM(const POPM &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned)f.rating() << sep_;
 
   vector<unsigned char> counter;
@@ -505,10 +516,10 @@ scribbu::tdf_pprinter::pprint_XTAG(const XTAG &f, std::ostream &os)
   std::tie(dst, rsp) = encoding_from_stream(os);
 
   string own = f.owner(), tags = f.urlencoded();
-  os << convert_encoding<string>(own.c_str(), own.length(), encoding::UTF_8,
-                                 dst, rsp) << sep_ <<
-    convert_encoding<string>(tags.c_str(), tags.length(), encoding::UTF_8,
-                             dst, rsp);
+  os << escape(convert_encoding<string>(own.c_str(), own.length(),
+                                        encoding::UTF_8, dst, rsp)) <<
+    sep_ << escape(convert_encoding<string>(tags.c_str(), tags.length(),
+                                            encoding::UTF_8, dst, rsp));
 
   return os;
 }
@@ -522,7 +533,7 @@ scribbu::tdf_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
   // on_no_encoding rsp;
   // std::tie(dst, rsp) = encoding_from_stream(os);
 
-  os << f.email<string>();
+  os << escape(f.email<string>());
 
   return os;
 }
@@ -543,7 +554,7 @@ scribbu::tdf_pprinter::pprint_id3v2_4_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -560,7 +571,7 @@ scribbu::tdf_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.owner<string>(dst, rsp, src) << sep_;
+  os << escape(f.owner<string>(dst, rsp, src)) << sep_;
 
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
@@ -591,7 +602,7 @@ scribbu::tdf_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.datab(back_inserter(buf));
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << (unsigned)x;
@@ -608,7 +619,7 @@ scribbu::tdf_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
   return os;
 }
 
@@ -624,9 +635,9 @@ scribbu::tdf_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
-    f.description<string>(dst, rsp, v2enc_) << sep_ <<
-    f.text<string>(dst, rsp, v2enc_);
+  return os << escape(string(lang, 3)) << sep_ <<
+    escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
+    escape(f.text<string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -649,7 +660,7 @@ scribbu::tdf_pprinter::pprint_POPM_2_4(const POPM_2_4 &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned)f.rating() << sep_;
 
   vector<unsigned char> counter;
@@ -674,10 +685,10 @@ scribbu::tdf_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &f, std::ostream &os)
   std::tie(dst, rsp) = encoding_from_stream(os);
 
   string own = f.owner(), tags = f.urlencoded();
-  os << convert_encoding<string>(own.c_str(), own.length(), encoding::UTF_8,
-                                 dst, rsp) << sep_ <<
-    convert_encoding<string>(tags.c_str(), tags.length(), encoding::UTF_8,
-                             dst, rsp);
+  os << escape(convert_encoding<string>(own.c_str(), own.length(),
+                                        encoding::UTF_8, dst, rsp)) <<
+    sep_ << escape(convert_encoding<string>(tags.c_str(), tags.length(),
+                                            encoding::UTF_8, dst, rsp));
 
   return os;
 }
@@ -691,7 +702,7 @@ scribbu::tdf_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &f, std::ostream &os)
   // on_no_encoding rsp;
   // std::tie(dst, rsp) = encoding_from_stream(os);
 
-  os << f.email<string>();
+  os << escape(f.email<string>());
 
   return os;
 }
diff --git a/scribbu/tdf-pprinter.hh b/scribbu/tdf-pprinter.hh
index 69945ee..36e394d 100644
--- a/scribbu/tdf-pprinter.hh
+++ b/scribbu/tdf-pprinter.hh
@@ -162,6 +162,11 @@ namespace scribbu {
       return new tdf_pprinter(*this);
     }
 
+  private:
+    /// There is no quoting in this format; put spaces in place of whatever
+    /// would be taken for the end of a field or a row
+    std::string escape(std::string s) const;
+
   private:
     std::size_t ncomm_;
     boost::optional<encoding> v1enc_;
-- 
2.43.0


From f5f5ea23d713b6ce3ff53b1f29b827eae748ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 127/144] fix: recognise template options where the grammar
 expects them

The options v1-only, v2-only, yy, yyyy & hex-case take their place right
after a colon or an ampersand, but the lexer only knew them after an
equals sign. Templates like "%(artist:v1-only)" were therefore rejected.
---
 scribbu/tbt-lexer.ll | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index c094469..b3d1f50 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -125,13 +125,16 @@ year_abbrev         Y
 <REPLACEMENT>{cap}          { return CAP;         }
 <REPLACEMENT>{output}       { return OUTPUT;      }
 <REPLACEMENT>{compress}     { return COMPRESS_WS; }
+<REPLACEMENT>{four_digits}  { return FOUR_DIGITS; }
+<REPLACEMENT>{hex_case}     { return HEX_CASE;    }
 <REPLACEMENT>{pref_v1}      { return PREF_V1;     }
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
+<REPLACEMENT>{two_digits}   { return TWO_DIGITS;  }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
+<REPLACEMENT>{v1_only}      { return V1_ONLY;     }
+<REPLACEMENT>{v2_only}      { return V2_ONLY;     }
 <REPLACEMENT>{ws}           { return WS;          }
 
-<PARAMETER>{two_digits}     { BEGIN(REPLACEMENT); return TWO_DIGITS;  }
-<PARAMETER>{four_digits}    { BEGIN(REPLACEMENT); return FOUR_DIGITS; }
 <PARAMETER>{ascii}          { BEGIN(REPLACEMENT); return ASCII;       }
 <PARAMETER>{auto}           { BEGIN(REPLACEMENT); return AUTO;        }
 <PARAMETER>{all_lower}      { BEGIN(REPLACEMENT); return ALL_LOWER;   }
@@ -140,7 +143,6 @@ year_abbrev         Y
 <PARAMETER>{cp1252}         { BEGIN(REPLACEMENT); return CP1252;      }
 <PARAMETER>{decimal}        { BEGIN(REPLACEMENT); return DECIMAL;     }
 <PARAMETER>{hex}            { BEGIN(REPLACEMENT); return HEX;         }
-<PARAMETER>{hex_case}       { BEGIN(REPLACEMENT); return HEX_CASE;    }
 <PARAMETER>{iso8859_1}      { BEGIN(REPLACEMENT); return ISO8859_1;   }
 <PARAMETER>{lower}          { BEGIN(REPLACEMENT); return LOWER;       }
 <PARAMETER>{prefix}         { BEGIN(REPLACEMENT); return PREFIX;      }
@@ -150,8 +152,6 @@ year_abbrev         Y
 <PARAMETER>{utf16be}        { BEGIN(REPLACEMENT); return UTF16_BE;    }
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
-<PARAMETER>{v1_only}        { BEGIN(REPLACEMENT); return V1_ONLY;     }
-<PARAMETER>{v2_only}        { BEGIN(REPLACEMENT); return V2_ONLY;     }
 
 <PARAMETER>{text} {
   BEGIN(REPLACEMENT);
-- 
2.43.0


From 2f5c759647783f528806faba3366dc1e2a5b23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 128/144] fix: accept the documented "cap" template option

The manual spells the option "cap=all-upper"; only "capitalization" was
accepted.
---
 scribbu/tbt-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index b3d1f50..eaf3a78 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -50,7 +50,7 @@ title        title
 year         year
 
 base         base
-cap          capitalization
+cap          cap(italization)?
 compress     compress
 hex_case     hex-case
 output       output
-- 
2.43.0


From 8124bd57c74429d043e943283020754b9c0ae84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 129/144] fix: remove the backslash from an escaped equals sign

The lexer allows "\\=" in template text, but left the backslash in the
resulting file name.
---
 scribbu/tbt-lexer.ll | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index eaf3a78..4781328 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -193,6 +193,7 @@ static std::string * unescape_and_copy(const char *text) {
       case ':':
       case '?':
       case '&':
+      case '=':
       case '\\':
         break;
       default:
-- 
2.43.0


From d3d44fa1e57df85d50e9f213068d8c9c605da8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 130/144] fix: accept the UTF-16 & UTF-32 encodings for ID3v1
 text in templates

They are documented & the lexer knows them, but the grammar had no
production using them.
---
 scribbu/tbt-parser.yy | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scribbu/tbt-parser.yy b/scribbu/tbt-parser.yy
index b96f266..5c07ab0 100644
--- a/scribbu/tbt-parser.yy
+++ b/scribbu/tbt-parser.yy
@@ -518,6 +518,15 @@ v1_encoding: V1ENCODING EQUAL AUTO {
            | V1ENCODING EQUAL UTF8 {
                $$ = scribbu::tbt_support::v1_encoding::utf_8;
              }
+           | V1ENCODING EQUAL UTF16_BE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_be;
+             }
+           | V1ENCODING EQUAL UTF16_LE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_le;
+             }
+           | V1ENCODING EQUAL UTF32 {
+               $$ = scribbu::tbt_support::v1_encoding::utf_32;
+             }
            ;
 
 the_xform: THE {
-- 
2.43.0


From 188fb046d8f3bbe1919e4c45b10ca80b8fb3b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 131/144] fix: use the first ID3v1 encoding that works when
 guessing

When asked to work out the encoding of ID3v1 text, the template code
threw "unable to find encoding" even after a successful conversion, so
no template could use ID3v1 text by default.
---
 scribbu/tbt-support.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 6c89b8c..cdc4720 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -351,9 +351,8 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
 
     for (auto g: GUESSES) {
       try {
-        result = convert_encoding<std::string>(pbuf, cbbuf, g,
-                                               encoding::UTF_8);
-        break;
+        return convert_encoding<std::string>(pbuf, cbbuf, g,
+                                             encoding::UTF_8);
       } catch (const iconv_error&) {
         // Move on to the next guess...
       }
-- 
2.43.0


From 508be8158f6a946b0948e4db406e166f279d7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 132/144] fix: fall back to ID3v2 when the preferred ID3v1 text
 is empty

---
 scribbu/tbt-support.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 71c4382..778c201 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -207,7 +207,8 @@ namespace scribbu
             if (!s.empty()) {
               return s;
             }
-          } else if (v2 && !v2->empty()) {
+          }
+          if (v2 && !v2->empty()) {
             return *v2;
           }
           throw missing_source_text(pref);
-- 
2.43.0


From a1e0a2b5e2b363d68604b6e9f0691e5c8a248517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 133/144] fix: print the file size in hexadecimal when a
 template asks for it

The hexadecimal branch set up the stream but never printed the number.
---
 scribbu/tbt-support.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index cdc4720..f782920 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -657,6 +657,7 @@ scribbu::tbt_support::size::evaluate(const file_info  & fi,
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
+    buf << n;
   }
 
   return buf.str();
-- 
2.43.0


From fe14836df806d8a9cbebc778a6f732936af69c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 134/144] fix: print the MD5 checksum as digits in templates

The checksum's bytes were inserted into the file name as raw characters.
---
 scribbu/tbt-support.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f782920..c33f062 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -682,8 +682,9 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
       buf << setiosflags(ios::uppercase);
     }
   }
+  buf << setfill('0');
   for (auto x: D) {
-    buf << x;
+    buf << setw(base::hex == b_ ? 2 : 3) << (unsigned int) x;
   }
   return buf.str();
 
-- 
2.43.0


From bb8f2e4ed8d27906a98e813e4846653f7c6cd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 135/144] fix: honour the whitespace compression argument for
 file-based terms

---
 scribbu/tbt-support.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 778c201..c5de6d9 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -337,7 +337,7 @@ namespace scribbu
                 const std::string &rep = std::string()):
         the_        (the),
         cap_        (cap),
-        compress_ws_(false),
+        compress_ws_(cmp),
         replace_ws_ (rep)
       { }
 
-- 
2.43.0


From 1cfb41ed61617256965f57f6c0a73201aaac21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 136/144] fix: compress whitespace in templates

Runs of whitespace were split into empty words & then joined again, so
"compress" had no effect & "ws=_" gave one underscore per space.
---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index c33f062..f46011e 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -234,7 +234,7 @@ scribbu::tbt_support::do_ws_xform(const std::string &text,
   }
 
   vector<string> splits;
-  split(splits, text, is_any_of(" \t"));
+  split(splits, text, is_any_of(" \t"), token_compress_on);
   if (0 != replace.length()) {
     return join(splits, replace);
   }
-- 
2.43.0


From 1a81e2af4a153eac5e60e327f6a9e15f72b51222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 137/144] fix: apply the whitespace arguments when evaluating
 %(encoded-by)

---
 scribbu/tbt-support.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f46011e..f9eb72d 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -572,6 +572,7 @@ scribbu::tbt_support::encoded_by::evaluate(const file_info  & /*fi    */,
   string text = pid3v2->encoded_by();
   text = do_the_xform(text, the_);
   text = do_cap_xform(text, cap_);
+  text = do_ws_xform(text, cmp_, rep_);
   return encode(text, out_);
 }
 
-- 
2.43.0


From fd824f68da0c6d7e80c715d499de5a2fe05e69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:31 +0000
Subject: [PATCH 138/144] fix: do not fail when capitalizing empty text in a
 template

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f9eb72d..b2125fe 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -200,7 +200,7 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
   using namespace std;
   using namespace boost;
 
-  if (capitalization::capitalize == cap) {
+  if (capitalization::capitalize == cap && !text.empty()) {
     string result;
     result += toupper(text[0], locale(""));
     result += text.substr(1);
-- 
2.43.0


From f6e0bbfe094221ac04bf2f4c9b561a559d500028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:50:01 +0000
Subject: [PATCH 139/144] fix: print the owner of a UFI frame when no source
 encoding is given

UFI::owner() took the value of the optional source encoding without looking
whether there is one. `scribbu dump -f json' passes none unless an encoding
was asked for, and aborted on a tag with a UFI frame. Take the text for
ISO-8859-1 in that case, as the other pretty-printers do.
---
 scribbu/framesv22.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index ce4d897..782ebc4 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -274,7 +274,9 @@ namespace scribbu {
       vector<unsigned char> buf;
       unique_file_id::ownerb(back_inserter(buf));
       return buf.empty() ? string_type() :
-        convert_encoding<string>(&(buf[0]), buf.size(), src.get(), dst, rsp);
+        convert_encoding<string>(&(buf[0]), buf.size(),
+                                 src ? src.get() : encoding::ISO_8859_1,
+                                 dst, rsp);
     }
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
-- 
2.43.0


From a5287ab8dd9f4cff58b1ad73d472afa5b12f2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:50:01 +0000
Subject: [PATCH 140/144] fix: throw when asked for a frame the tag does not
 have

get_frame() dereferenced the end of the frame lookup. Throw
unknown_frame_error as the text frame accessors do.
---
 scribbu/id3v22.hh | 3 +++
 scribbu/id3v23.hh | 3 +++
 scribbu/id3v24.hh | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index cb5ddc6..78c52be 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -306,6 +306,9 @@ namespace scribbu {
 
     const id3v2_2_frame& get_frame(const frame_id3 &id) const {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (p == frame_map_.end()) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index ea2372c..41d1343 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -411,6 +411,9 @@ namespace scribbu {
     const id3v2_3_frame& get_frame(const frame_id4 &id) const
     {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (p == frame_map_.end()) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 8c09719..46bf030 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -449,6 +449,9 @@ namespace scribbu {
     const id3v2_4_frame& get_frame(const frame_id4 &id) const
     {
       frame_lookup_type::const_iterator p = frame_map_.find(id);
+      if (p == frame_map_.end()) {
+        throw unknown_frame_error(id);
+      }
       return *frames_.at(p->second);
     }
 
-- 
2.43.0


From c94ee6fce6145a82cfb8ba6fc245d3f169782682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:50:01 +0000
Subject: [PATCH 141/144] fix: count the false syncs of a comment without text

A comment with a description but no text was asked for the first byte of the
text.
---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 9f7e159..5ea7f5e 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1060,11 +1060,11 @@ scribbu::comments::count_syncs(bool false_only) const
 
   cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
 
-  if (false_only && description_.size() &&
+  if (false_only && description_.size() && text_.size() &&
       is_false_sync(description_.back(), text_.front())) {
     ++cb;
   }
-  else if (!false_only && description_.size() &&
+  else if (!false_only && description_.size() && text_.size() &&
            needs_unsync(description_.back(), text_.front())) {
     ++cb;
   }
-- 
2.43.0


From ce8538c25990d3a68411b95706ef6a9139747e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:50:01 +0000
Subject: [PATCH 142/144] fix: count the false syncs of a tag cloud with a key
 without values

The first value of an empty set was read.
---
 scribbu/framesv2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 5ea7f5e..a3f8c5e 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1507,7 +1507,7 @@ scribbu::tag_cloud::count_syncs(bool false_only) const
     // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
     // is true, we _could_ have a false sync between the value byte count &
     // the first string.
-    if (false_only) {
+    if (false_only && kv.second.size() && kv.second.begin()->size()) {
       unsigned char y = (unsigned char)(kv.second.begin()->front());
       if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
         ++nsync;
-- 
2.43.0


From 7fd6f16634e402bf35a20353d447cd3dbe3ac813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:50:01 +0000
Subject: [PATCH 143/144] fix: count only play counts that can be read

A PCNT frame that could not be decrypted is kept as an unknown frame under
its identifier. has_play_count() counted it, and play_count() then took the
first of an empty list of play counts.
---
 scribbu/id3v22.hh | 2 +-
 scribbu/id3v23.hh | 2 +-
 scribbu/id3v24.hh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 78c52be..b16f821 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -200,7 +200,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLA"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return cnts_.size(); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TT2"); }
     virtual std::size_t has_track() const
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 41d1343..2b88427 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -302,7 +302,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("PCNT"); }
+    { return pcnts_.size(); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 46bf030..d69beb1 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -337,7 +337,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("PCNT"); }
+    { return pcnts_.size(); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From 4608aec792bfcaa816b5fe59df6258fae4d85612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:50:01 +0000
Subject: [PATCH 144/144] fix: stop looking for tags to process after the last
 one asked for

With --tag naming fewer tags than the file has, the list of tags left to
process was asked for its first element when it was empty.
---
 src/command-utilities.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 1cfff18..4c46242 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -337,7 +337,7 @@ tagset_processor::process_file(const fs::path &pth)
 
     // Ok-- now we walk the pointers to `id3v2_tag' in `v2'
     for (size_t i = 0; i < v2.size(); ++i) {
-      if (tags.front() == i) {
+      if (!tags.empty() && tags.front() == i) {
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
-- 
2.43.0

