From 38cc4f020101d936de04b0f5e306993f429461b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 01/30] fix: count frame headers and added padding in the tag
 size

The setters only added the size of the frame body and write_tag did not
account for the padding it adds, so serialising a new tag wrote past the
end of the buffer and the file got a size that was too small.
---
 src/id3v2lib.c    |  1 +
 src/modules/tag.c | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..3541ef9 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -94,6 +94,7 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         ID3v2_TAG_DEFAULT_PADDING_LENGTH
     );
     tag->padding_size += extra_padding_length;
+    tag->header->tag_size += extra_padding_length;
     CharStream* tag_cs = Tag_to_char_stream(tag);
 
     // Perform operations on a temp file in case things go wrong
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..acd153c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -207,7 +207,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -341,7 +341,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -360,7 +360,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -394,7 +394,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -419,7 +419,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 0a5d290be71250d02acafe9a064f095317a57b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 02/30] fix: unlink the last frame of the list when it is
 removed

Removing the last of several frames left an empty node behind, on which
write_tag ended the process, and removing from an empty list crashed.
---
 src/modules/frame_list.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..e182284 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -113,21 +113,40 @@ void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
     }
 }
 
+/**
+ * Takes a node out of the list. The first node is owned by the tag, so it's never freed:
+ * it takes over the contents of the next one, or is left empty if there's none.
+ */
+static void remove_node(ID3v2_FrameList* previous, ID3v2_FrameList* node)
+{
+    if (node->next == NULL && previous != NULL)
+    {
+        previous->next = NULL;
+        free(node);
+        return;
+    }
+
+    ID3v2_FrameList* new_head_old_ptr = node->next != NULL ? node->next : FrameList_new();
+    *node = *new_head_old_ptr;
+    free(new_head_old_ptr);
+}
+
 ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
     if (list == NULL) return NULL;
 
-    while (list != NULL)
+    ID3v2_FrameList* previous = NULL;
+
+    while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
             ID3v2_Frame* removed = list->frame;
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            remove_node(previous, list);
             return removed;
         }
 
+        previous = list;
         list = list->next;
     }
 
@@ -138,16 +157,17 @@ ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remov
 {
     if (list == NULL) return NULL;
 
-    while (list != NULL)
+    ID3v2_FrameList* previous = NULL;
+
+    while (list != NULL && list->frame != NULL)
     {
         if (list->frame == to_remove)
         {
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            remove_node(previous, list);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From 912d9eacd19e02dcba2a562f3b1125f0357ca879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 03/30] fix: deleting a frame the tag does not have is not an
 error

ID3v2_Tag_delete_frame dereferenced NULL when no frame had the given id.
---
 src/modules/tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index acd153c..d94ceb2 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -455,6 +455,7 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+    if (deleted == NULL) return; // the tag doesn't have such a frame
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From 4f149683cac05d0b6737e1058ea25b432febc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 04/30] fix: account for frames deleted by index and free the
 whole sublist

delete_comment_frame and delete_apic_frame left the tag size unchanged,
so the file grew on every save, dereferenced the missing frame of an
empty sublist and leaked the nodes before the deleted one.
---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index d94ceb2..a27b9b5 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -510,15 +510,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* sublist = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = sublist;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -527,7 +529,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(sublist);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -538,15 +540,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* sublist = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = sublist;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -555,7 +559,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(sublist);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From 4cf9026f53d551876dda0a78d884dfaa75bce385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 05/30] fix: write sync-safe frame sizes in v2.4 tags

They are read as sync-safe integers but were written as plain ones, so
frames of 128 bytes or more could not be read back.
---
 src/modules/tag.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index a27b9b5..b3408fe 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -96,6 +96,18 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
         if (frame_cs == NULL) exit(1);
 
+        if (tag->header->major_version == 4)
+        {
+            // Unlike in v2.3, the frame sizes are sync-safe integers in v2.4
+            char* frame_size_bytes = itob(syncint_encode(frames->frame->header->size));
+            memcpy(
+                frame_cs->stream + ID3v2_FRAME_HEADER_ID_LENGTH,
+                frame_size_bytes,
+                ID3v2_FRAME_HEADER_SIZE_LENGTH
+            );
+            free(frame_size_bytes);
+        }
+
         CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
         CharStream_free(frame_cs);
 
-- 
2.43.0


From 2bccf45661d6b617c8b43fabbde2097578f314a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 06/30] fix: only treat COMM and APIC as comments and pictures

Every frame starting with C or A (CHAP, CTOC, AENC, ASPI, ...) was parsed
as one, which destroyed its contents.
---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..2a1579a 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -77,12 +78,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From ded5072fd5f31065134c986be76ec995a8bd487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 07/30] fix: do not look for a byte order mark past the end of
 a string

memcmp read two bytes of the empty string.
---
 src/modules/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..54da667 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,7 +152,8 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
+    // The string may be a single terminating byte long
+    if (strncmp("\xFF\xFE", string, 2) == 0 || strncmp("\xFE\xFF", string, 2) == 0)
     {
         return true;
     }
-- 
2.43.0


From 92aaef3d3d06c861cce8fd194711d1271332fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 08/30] fix: free unknown frames and their serialised headers
 completely

---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..257ae51 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -78,6 +78,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
+        CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         return frame_cs;
     }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From dc2e2f83ec0956fec50bf7994be7c92cd9367b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 09/30] fix: give the description of a comment the encoding of
 its text

For a non unicode comment set_comment wrote a unicode description, which
a reader that goes by the encoding byte takes for part of the comment.
---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index b3408fe..a5eeb65 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -382,7 +382,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // The frame has a single encoding, that of the comment
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 9d7dafddeecb665137841c277f018b5b5f46d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 10/30] fix: find no tag in a buffer shorter than a tag header

---
 src/modules/tag_header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..bd41bf1 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
-- 
2.43.0


From 285e29549a6cacb3dea0d18a67e8716cd7e03594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 11/30] fix: skip the extended header when reading and do not
 announce it when writing

The parser jumped into the middle of the tag, the header-only readers used
an uninitialised size, and a written tag kept the flag of an extended
header that is not there.
---
 src/modules/tag.c        |  9 ++++++---
 src/modules/tag_header.c | 12 ++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index a5eeb65..ed8f6ed 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -50,8 +50,10 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip it. Its size has already been read, but
+        // only counts as part of the extended header in v2.4
+        const int size_length = header->major_version == 4 ? ID3v2_EXTENDED_HEADER_SIZE_LENGTH : 0;
+        CharStream_seek(tag_cs, header->extended_header_size - size_length, SEEK_CUR);
     }
 
     ID3v2_Frame* current_frame;
@@ -75,7 +77,8 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    CharStream_write(tag_cs, &tag->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    const char flags = tag->header->flags & ~(1 << 6); // the extended header is never written
+    CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
     CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index bd41bf1..0a87a3c 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -75,9 +75,17 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     if ((flags & (1 << 6)) == (1 << 6))
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
-        extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
+        extended_header_size = btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
+
+        if (major_version == 4)
+        {
+            // Unlike in v2.3, the size is a sync-safe integer
+            extended_header_size = syncint_decode(extended_header_size);
+        }
+
+        extended_header_size = clamp_int(extended_header_size, 0, tag_size);
     }
 
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
-- 
2.43.0


From 9afc66030954853c57447a76ca777b105e6755d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 12/30] fix: reject frames that do not fit in the tag

A damaged frame size made the parsers read past the end of the tag.
---
 src/modules/frame_header.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 2a1579a..d91e42c 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -31,6 +31,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // There must be room for a whole header, what's left may be too short a padding
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -55,6 +58,9 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    // The frame must fit in what's left of the tag
+    if (size < 0 || size > header_cs->size - header_cs->cursor) return NULL;
+
     return FrameHeader_new(id, flags, size);
 }
 
-- 
2.43.0


From fcae6cf1b2b59cadaa9f90418a7209bf6e0d044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 13/30] fix: take the end of the tag from its header, not from
 the buffer

The last frames of a tag without padding were skipped, a buffer that goes
on with audio made all of it padding, and one that was cut short made the
parser read past its end.
---
 src/modules/tag.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index ed8f6ed..b96bc2c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,6 +48,10 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // Ignore what follows the tag, and make do with what there is if it was cut short
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+    header->tag_size = tag_cs->size - ID3v2_TAG_HEADER_LENGTH;
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip it. Its size has already been read, but
@@ -57,14 +61,17 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     }
 
     ID3v2_Frame* current_frame;
-    while (tag_cs->cursor < tag->header->tag_size)
+    int frames_size = 0;
+    while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
         FrameList_add_frame(tag->frames, current_frame);
+        frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
 
-    tag->padding_size = tag_cs->size - tag_cs->cursor;
+    // Everything that is not a frame will be written as padding
+    tag->padding_size = header->tag_size - frames_size;
 
     return tag;
 }
-- 
2.43.0


From a86b87792f6be0959c481907a20456cb2f5286cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 14/30] fix: read text frames of any size, with or without a
 terminated string

The text was copied to the stack and then up to a terminator that may not
be there, its encoding was replaced by a guess, and all but the first of
several strings (TXXX, multiple values) were dropped.
---
 src/modules/char_stream.c         | 16 ++++++++++++++++
 src/modules/char_stream.private.h |  1 +
 src/modules/frames/text_frame.c   | 22 ++++++++++++++--------
 src/modules/tag.c                 |  4 ++++
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index 7a6924e..5c0d9fa 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -61,6 +61,22 @@ int CharStream_getc(CharStream* cs)
     return c;
 }
 
+/**
+ * Reads size bytes that start with a string. If the termination of the string is missing
+ * it's added, in which case size is updated accordingly.
+ */
+char* CharStream_read_string(CharStream* cs, int* size)
+{
+    // Enough room for any termination
+    char* result = (char*) calloc(*size + 3, sizeof(char));
+    CharStream_read(cs, result, *size);
+
+    const int string_size = ID3v2_strlent(result);
+    if (string_size > *size) *size = string_size;
+
+    return result;
+}
+
 char* CharStream_slice(CharStream* cs, const int n)
 {
     char* result = CharStream_get_cur(cs);
diff --git a/src/modules/char_stream.private.h b/src/modules/char_stream.private.h
index ef86764..c70e57a 100644
--- a/src/modules/char_stream.private.h
+++ b/src/modules/char_stream.private.h
@@ -24,6 +24,7 @@ char* CharStream_get_cur(CharStream* cs);
 void CharStream_write(CharStream* cs, const char* data, const int size);
 int CharStream_read(CharStream* cs, char* dest, const int size);
 int CharStream_getc(CharStream* cs);
+char* CharStream_read_string(CharStream* cs, int* size);
 char* CharStream_slice(CharStream* cs, const int n);
 
 void CharStream_seek(CharStream* cs, const int offset, const int whence);
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..30aebd6 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,15 +34,21 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    if (header == NULL || header->size < ID3v2_FRAME_ENCODING_LENGTH)
+    {
+        FrameHeader_free(header);
+        return NULL;
+    }
 
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
-
-    ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_TextFrame* frame = (ID3v2_TextFrame*) malloc(sizeof(ID3v2_TextFrame));
+    frame->header = header;
+    frame->data = (ID3v2_TextFrameData*) malloc(sizeof(ID3v2_TextFrameData));
+
+    // Keep the encoding and everything that follows, there may be several strings
+    frame->data->encoding = CharStream_getc(frame_cs);
+    frame->data->size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
+    frame->data->text = CharStream_read_string(frame_cs, &frame->data->size);
+    header->size = ID3v2_FRAME_ENCODING_LENGTH + frame->data->size;
 
     return frame;
 }
diff --git a/src/modules/tag.c b/src/modules/tag.c
index b96bc2c..6cf418d 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <limits.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -70,6 +71,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         frames_size += current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
 
+    // Adding missing string terminations may have made the frames outgrow the tag
+    header->tag_size = clamp_int(header->tag_size, frames_size, INT_MAX);
+
     // Everything that is not a frame will be written as padding
     tag->padding_size = header->tag_size - frames_size;
 
-- 
2.43.0


From 3ed00a82139b5adf8c6f18799cbab68c66107689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 15/30] fix: read comment frames within their bounds and keep
 their encoding

The strings were looked for and copied to the stack without regard to the
end of the frame, and the encoding was replaced by a guess.
---
 src/modules/frames/comment_frame.c | 45 ++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..06b5e2b 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,22 +43,45 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    if (header == NULL) return NULL;
 
-    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
-    CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    const int fixed_size = ID3v2_FRAME_ENCODING_LENGTH + ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
+    const int strings_size = header->size - fixed_size;
 
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
+    if (strings_size < 1)
+    {
+        FrameHeader_free(header);
+        return NULL;
+    }
 
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
+    ID3v2_CommentFrameData* data = (ID3v2_CommentFrameData*) malloc(sizeof(ID3v2_CommentFrameData));
+
+    data->encoding = CharStream_getc(frame_cs);
+    CharStream_read(frame_cs, data->language, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+
+    // Read both strings to find out where the first one ends, and then the second one on its own
+    int size = strings_size;
+    data->short_description = CharStream_read_string(frame_cs, &size);
+    const int short_desc_size = ID3v2_strlent(data->short_description);
 
-    ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
+    if (short_desc_size > strings_size)
+    {
+        // The description is not terminated, so there's no comment
+        free(data->short_description);
+        free(data);
+        FrameHeader_free(header);
+        return NULL;
+    }
 
-    FrameHeader_free(header); // we only needed the header to parse the data
+    data->size = strings_size - short_desc_size;
+    CharStream_seek(frame_cs, -data->size, SEEK_CUR);
+    data->comment = CharStream_read_string(frame_cs, &data->size);
+
+    header->size = fixed_size + short_desc_size + data->size;
+
+    ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
+    frame->header = header;
+    frame->data = data;
 
     return frame;
 }
-- 
2.43.0


From 02fb1e2565f2f62ca3d9701f2f6027ed787de3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 16/30] fix: read picture frames within their bounds and keep
 their encoding

The whole picture was copied to the stack, the strings were looked for
without regard to the end of the frame, and the encoding was replaced by
a guess.
---
 src/modules/frames/apic_frame.c | 53 +++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..96d9c55 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,26 +48,47 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    if (header == NULL || header->size < ID3v2_FRAME_ENCODING_LENGTH)
+    {
+        FrameHeader_free(header);
+        return NULL;
+    }
 
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
+    const char encoding = CharStream_getc(frame_cs);
 
-    const char picture_type = CharStream_getc(frame_cs);
+    // Terminated, so looking for the end of the strings stays within its bounds
+    const int content_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
+    char* content = (char*) calloc(content_size + 3, sizeof(char));
+    CharStream_read(frame_cs, content, content_size);
 
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
-
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
-
-    ID3v2_ApicFrame* frame =
-        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
+    ID3v2_ApicFrame* frame = NULL;
+    const char* mime_type = content;
+    const int mime_type_size = ID3v2_strlent(mime_type);
 
+    if (mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH <= content_size)
+    {
+        const char picture_type = content[mime_type_size];
+        const char* description =
+            content + mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
+        const int description_size = ID3v2_strlent(description);
+        const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
+                             ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
+
+        if (pic_size >= 0)
+        {
+            frame = ApicFrame_new(
+                header->flags,
+                description,
+                picture_type,
+                mime_type,
+                pic_size,
+                description + description_size
+            );
+            frame->data->encoding = encoding;
+        }
+    }
+
+    free(content);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
-- 
2.43.0


From 795e715d2e1bd5f8e65a9ea4907202cc473b2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 17/30] fix: only parse what could be read from the file

read_tag parsed uninitialised memory when the file was shorter than its
tag claims or could not be read, and crashed when it could not be opened
again.
---
 src/id3v2lib.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 3541ef9..ab8d4f3 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -49,6 +50,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
@@ -60,10 +68,12 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    // The file may be shorter than its tag claims
+    const int bytes_read = fread(tag_buffer, sizeof(char), buffer_length, file);
+    const bool read_failed = ferror(file);
     fclose(file);
 
-    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
+    ID3v2_Tag* tag = read_failed ? NULL : ID3v2_read_tag_from_buffer(tag_buffer, bytes_read);
 
     free(tag_buffer);
     ID3v2_TagHeader_free(tag_header);
-- 
2.43.0


From 9a92d17a7ebc33e817821dc09851b740b59e320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 18/30] fix: leave the file alone when its new contents cannot
 be prepared

write_tag crashed when the file or the temporary file could not be opened,
and replaced the file even though reading it or writing the temporary
file had failed. A failure to read the existing header was taken for a
file without a tag, which got a second one.
---
 src/id3v2lib.c | 72 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index ab8d4f3..42006e7 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -10,6 +10,7 @@
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "modules/char_stream.private.h"
 #include "modules/frame.private.h"
@@ -89,14 +90,49 @@ ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_l
     return tag;
 }
 
+/**
+ * Returns the length of the tag at the start of the file, 0 if there's none or -1 if
+ * that can't be told.
+ */
+static int get_existing_tag_length(FILE* fp)
+{
+    char buffer[ID3v2_TAG_HEADER_LENGTH];
+    const int bytes_read = fread(buffer, sizeof(char), ID3v2_TAG_HEADER_LENGTH, fp);
+
+    if (ferror(fp)) return -1;
+    if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return 0;
+
+    ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header_from_buffer(buffer);
+
+    if (existing_tag_header == NULL)
+    {
+        // Either not a supported tag, or not enough memory to parse its header
+        const bool has_tag = memcmp(buffer, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0 &&
+                             (buffer[3] == 3 || buffer[3] == 4);
+        return has_tag ? -1 : 0;
+    }
+
+    const int length = existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+    ID3v2_TagHeader_free(existing_tag_header);
+
+    return length;
+}
+
 void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 {
     if (tag == NULL) return;
 
-    ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
-    const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
-    free(existing_tag_header);
+    FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (dest_fp == NULL) return;
+
+    const int original_size = get_existing_tag_length(dest_fp);
+
+    if (original_size < 0)
+    {
+        fclose(dest_fp);
+        return;
+    }
 
     const int extra_padding_length = clamp_int(
         ID3v2_TAG_DEFAULT_PADDING_LENGTH - tag->padding_size,
@@ -110,33 +146,45 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
     // Perform operations on a temp file in case things go wrong
     FILE* temp_fp = tmpfile();
 
+    if (temp_fp == NULL)
+    {
+        fclose(dest_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
+
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
-    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
+    bool failed = fseek(dest_fp, original_size, SEEK_SET) != 0; // move to the end of the original tag
 
     int c = 0;
 
-    while ((c = getc(dest_fp)) != EOF)
+    while (!failed && (c = getc(dest_fp)) != EOF)
     {
         putc(c, temp_fp);
     }
 
+    // The original must stay as it is unless the temp file is complete
+    failed = failed || ferror(dest_fp) || fseek(temp_fp, 0L, SEEK_SET) != 0 || ferror(temp_fp);
+
     // Finally copy the temp file back into the destination file
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+    dest_fp = failed ? NULL : fopen(file_name, "w+b");
 
-    while ((c = getc(temp_fp)) != EOF)
+    if (dest_fp != NULL)
     {
-        putc(c, dest_fp);
+        while ((c = getc(temp_fp)) != EOF)
+        {
+            putc(c, dest_fp);
+        }
+
+        fclose(dest_fp);
     }
 
     fclose(temp_fp);
-    fclose(dest_fp);
 
     CharStream_free(tag_cs);
 }
-- 
2.43.0


From 9570e4544c8f2b47c4f15390295f682d769ac3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:51 +0000
Subject: [PATCH 19/30] fix: leave the file alone when its tag cannot be
 deleted

delete_tag crashed when the file could not be opened again or the
temporary file could not be created, and replaced the file even though
reading it or writing the temporary file had failed.
---
 src/id3v2lib.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 42006e7..f9bdc0b 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -191,34 +191,44 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
 void ID3v2_delete_tag(const char* file_name)
 {
-    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header(file_name);
+    FILE* file_fp = fopen(file_name, "rb");
 
-    if (tag_header == NULL) return;
+    if (file_fp == NULL) return;
 
-    FILE* file_fp = fopen(file_name, "rb");
-    FILE* temp_fp = tmpfile();
+    const int tag_length = get_existing_tag_length(file_fp);
+    FILE* temp_fp = tag_length > 0 ? tmpfile() : NULL;
+
+    if (temp_fp == NULL)
+    {
+        fclose(file_fp);
+        return;
+    }
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    bool failed = fseek(file_fp, tag_length, SEEK_SET) != 0;
 
     int c = 0;
 
-    while ((c = getc(file_fp)) != EOF)
+    while (!failed && (c = getc(file_fp)) != EOF)
     {
         putc(c, temp_fp);
     }
 
+    // The original must stay as it is unless the temp file is complete
+    failed = failed || ferror(file_fp) || fseek(temp_fp, 0L, SEEK_SET) != 0 || ferror(temp_fp);
+
     // Finally copy the temp file back into the destination file
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+    file_fp = failed ? NULL : fopen(file_name, "w+b");
 
-    while ((c = getc(temp_fp)) != EOF)
+    if (file_fp != NULL)
     {
-        putc(c, file_fp);
-    }
+        while ((c = getc(temp_fp)) != EOF)
+        {
+            putc(c, file_fp);
+        }
 
-    ID3v2_TagHeader_free(tag_header);
+        fclose(file_fp);
+    }
 
     fclose(temp_fp);
-    fclose(file_fp);
 }
-- 
2.43.0


From ad2721b688b14038778c1a3c695fc8af1b9cbdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 20/30] fix: load_tag returns NULL when there is no tag to load

It crashed on files without a tag, on tags without frames and on files
that cannot be opened or read.
---
 src/id3v2lib.compat.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..2469b50 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -126,13 +127,32 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
     const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+
+    if (buffer == NULL)
+    {
+        fclose(fp);
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
+    // The file may be shorter than its tag claims
+    const int bytes_read = fread(buffer, sizeof(char), buffer_size, fp);
+    const bool read_failed = ferror(fp);
     fclose(fp);
 
-    ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
+    ID3v2_tag* tag = read_failed ? NULL : load_tag_with_buffer(buffer, bytes_read);
 
     free(buffer);
     ID3v2_TagHeader_free(header);
@@ -143,6 +163,8 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
@@ -166,7 +188,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
-- 
2.43.0


From d470c35e19df804dced38201a8a0f2fb29ea5217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 21/30] fix: initialise the whole tag in new_tag

free_tag freed an uninitialised pointer and a missing frame of a new tag.
---
 src/id3v2lib.compat.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 2469b50..65aad52 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -30,6 +30,7 @@ ID3v2_frame_list* new_frame_list()
         list->frame = NULL;
         list->next = NULL;
         list->start = NULL;
+        list->last = NULL;
     }
 
     return list;
@@ -115,12 +116,18 @@ ID3v2_tag* new_tag()
     ID3v2_tag* tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
     ID3v2_header* header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
 
-    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
-
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
 
+    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
+
     return tag;
 }
 
@@ -212,6 +219,8 @@ void set_tag(const char* file_name, ID3v2_tag* tag)
 
 void free_frame(ID3v2_frame* frame)
 {
+    if (frame == NULL) return;
+
     free(frame->data);
     free(frame);
 }
-- 
2.43.0


From 64138f5163c2fcba218ece7b1ed2cfeaa64ff094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 22/30] fix: the compatibility setters can add a frame that was
 not there

add_uniq_to_list dereferenced NULL unless the tag already had one.
---
 src/id3v2lib.compat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 65aad52..02357cf 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -78,9 +78,11 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
     }
 }
 
-void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
+void add_uniq_to_list(ID3v2_frame_list* list, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* head = list;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -93,7 +95,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(list, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
-- 
2.43.0


From 1c164a4c44c3a9d1ae1d6643e43d0c21e952f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 23/30] fix: copy both flag bytes of a frame to its
 compatibility counterpart

---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 02357cf..27ce05c 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -43,7 +43,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame);
-- 
2.43.0


From b2691bb640a500089ec2257e4e1f934938382963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 24/30] fix: parsing the contents of a missing frame yields
 nothing

The getters return NULL for a frame the tag does not have; version 1 of
the library accepted that, the compatibility layer crashed.
---
 src/id3v2lib.compat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 27ce05c..611169a 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -303,6 +303,8 @@ ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -317,6 +319,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -333,6 +337,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From 3df3f022f66d8bc61c22821b65b04039f110f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:06 +0000
Subject: [PATCH 25/30] fix: leave the tag alone when the album cover cannot be
 read

tag_set_album_cover crashed when the picture could not be opened or had no
extension, and set uninitialised memory as the picture when reading failed.
---
 src/id3v2lib.compat.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 611169a..989f531 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -460,17 +460,28 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
+    if (album_cover == NULL) return;
+
     fseek(album_cover, 0, SEEK_END);
     image_size = (int) ftell(album_cover);
     fseek(album_cover, 0, SEEK_SET);
 
-    album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+    album_cover_bytes = image_size < 0 ? NULL : (char*) malloc(image_size * sizeof(char));
+
+    // A partially read picture is of no use
+    if (album_cover_bytes == NULL ||
+        fread(album_cover_bytes, sizeof(char), image_size, album_cover) != image_size)
+    {
+        fclose(album_cover);
+        free(album_cover_bytes);
+        return;
+    }
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From 0284b01a917c426edcce9db0352896f4d32d3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:34 +0000
Subject: [PATCH 26/30] fix: do not set an empty album cover when the picture's
 size cannot be told

---
 src/id3v2lib.compat.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 989f531..c75851f 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -462,8 +462,7 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     if (album_cover == NULL) return;
 
-    fseek(album_cover, 0, SEEK_END);
-    image_size = (int) ftell(album_cover);
+    image_size = fseek(album_cover, 0, SEEK_END) == 0 ? (int) ftell(album_cover) : -1;
     fseek(album_cover, 0, SEEK_SET);
 
     album_cover_bytes = image_size < 0 ? NULL : (char*) malloc(image_size * sizeof(char));
-- 
2.43.0


From fd798e3b0a0d1445fdd849ed968ac4eb274fc4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 27/30] fix: skip and drop the footer of a v2.4 tag

The footer isn't part of the tag size, so it was kept as audio data when a tag
was replaced or deleted, while the new tag still announced one.
---
 src/id3v2lib.c    | 9 ++++++++-
 src/modules/tag.c | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index f9bdc0b..d756c59 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -112,7 +112,14 @@ static int get_existing_tag_length(FILE* fp)
         return has_tag ? -1 : 0;
     }
 
-    const int length = existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+    int length = existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    if (existing_tag_header->major_version == 4 && existing_tag_header->flags & (1 << 4))
+    {
+        // The tag ends with a footer, a copy of its header that isn't part of its size
+        length += ID3v2_TAG_HEADER_LENGTH;
+    }
+
     ID3v2_TagHeader_free(existing_tag_header);
 
     return length;
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 6cf418d..d9a3a33 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -88,7 +88,8 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    const char flags = tag->header->flags & ~(1 << 6); // the extended header is never written
+    // Neither the extended header nor the footer are ever written
+    const char flags = tag->header->flags & ~(1 << 6 | 1 << 4);
     CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
-- 
2.43.0


From d888ed8995400c049445ccc4e65a053814bc6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:24 +0000
Subject: [PATCH 28/30] fix: read unsynchronised v2.3 tags

Their frames were not recognised past the first byte added by the
unsynchronisation and got lost when saving, and edited tags were still announced
as unsynchronised.
---
 src/modules/tag.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index d9a3a33..5c5362e 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -42,6 +42,26 @@ ID3v2_Tag* ID3v2_Tag_new_empty()
     return ID3v2_Tag_new(NULL, 0);
 }
 
+/**
+ * Undoes the unsynchronisation of what's left in the stream: in an unsynchronised tag
+ * every 0xFF that could be confusing is followed by an additional zero.
+ */
+static void remove_unsynchronisation(CharStream* tag_cs)
+{
+    const char* stream = tag_cs->stream;
+    int size = tag_cs->cursor;
+
+    for (int i = tag_cs->cursor; i < tag_cs->size; i++)
+    {
+        const bool is_ff = (unsigned char) stream[i] == 0xFF;
+        tag_cs->stream[size++] = stream[i];
+
+        if (is_ff && i + 1 < tag_cs->size && stream[i + 1] == 0) i++; // skip the added zero
+    }
+
+    tag_cs->size = clamp_int(size, 0, tag_cs->size);
+}
+
 ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 {
     ID3v2_TagHeader* header = TagHeader_parse(tag_cs);
@@ -53,6 +73,11 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
     header->tag_size = tag_cs->size - ID3v2_TAG_HEADER_LENGTH;
 
+    if (header->major_version == 3 && header->flags & (1 << 7))
+    {
+        remove_unsynchronisation(tag_cs);
+    }
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip it. Its size has already been read, but
@@ -88,8 +113,9 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    // Neither the extended header nor the footer are ever written
-    const char flags = tag->header->flags & ~(1 << 6 | 1 << 4);
+    // Neither the extended header nor the footer are ever written, and nothing is
+    // unsynchronised
+    const char flags = tag->header->flags & ~(1 << 7 | 1 << 6 | 1 << 4);
     CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
-- 
2.43.0


From f6f0cd3ba5c6b2e3c452d450085bc8cc67292e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:52 +0000
Subject: [PATCH 29/30] fix: keep frames with encoded or incomplete content

---
 src/modules/char_stream.c          |  5 ++--
 src/modules/frame_header.c         |  9 ++++++
 src/modules/frame_header.private.h |  1 +
 src/modules/frames/apic_frame.c    | 45 +++++++++++++-----------------
 src/modules/frames/comment_frame.c | 22 +++++++--------
 src/modules/frames/text_frame.c    | 10 +++++--
 6 files changed, 51 insertions(+), 41 deletions(-)

diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index 5c0d9fa..cbaa312 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -41,8 +41,9 @@ char* CharStream_get_cur(CharStream* cs)
 
 void CharStream_write(CharStream* cs, const char* data, const int size)
 {
-    memcpy(CharStream_get_cur(cs), data, size);
-    cs->cursor += size;
+    const int final_size = clamp_int(size, 0, cs->size - cs->cursor);
+    memcpy(CharStream_get_cur(cs), data, final_size);
+    cs->cursor += final_size;
 }
 
 int CharStream_read(CharStream* cs, char* dest, const int size)
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index d91e42c..4c2f380 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -92,6 +92,15 @@ bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
     return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
+/**
+ * The content of compressed, encrypted, grouped... frames isn't what the frame id suggests,
+ * so it must be left as it is.
+ */
+bool FrameHeader_hasEncodedContent(ID3v2_FrameHeader* header)
+{
+    return header->flags[1] != 0;
+}
+
 void FrameHeader_free(ID3v2_FrameHeader* header)
 {
     free(header);
diff --git a/src/modules/frame_header.private.h b/src/modules/frame_header.private.h
index 6ca82fb..85636c3 100644
--- a/src/modules/frame_header.private.h
+++ b/src/modules/frame_header.private.h
@@ -24,6 +24,7 @@ CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header);
 bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header);
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header);
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header);
+bool FrameHeader_hasEncodedContent(ID3v2_FrameHeader* header);
 
 void FrameHeader_free(ID3v2_FrameHeader* header);
 
diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index 96d9c55..654f398 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -61,32 +61,27 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
     char* content = (char*) calloc(content_size + 3, sizeof(char));
     CharStream_read(frame_cs, content, content_size);
 
-    ID3v2_ApicFrame* frame = NULL;
     const char* mime_type = content;
-    const int mime_type_size = ID3v2_strlent(mime_type);
-
-    if (mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH <= content_size)
-    {
-        const char picture_type = content[mime_type_size];
-        const char* description =
-            content + mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
-        const int description_size = ID3v2_strlent(description);
-        const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                             ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-
-        if (pic_size >= 0)
-        {
-            frame = ApicFrame_new(
-                header->flags,
-                description,
-                picture_type,
-                mime_type,
-                pic_size,
-                description + description_size
-            );
-            frame->data->encoding = encoding;
-        }
-    }
+    const int type_position = clamp_int(ID3v2_strlent(mime_type), 0, content_size);
+    const char picture_type = content[type_position];
+    const int description_position =
+        clamp_int(type_position + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH, 0, content_size);
+    const char* description = content + description_position;
+    const int picture_position =
+        clamp_int(description_position + ID3v2_strlent(description), 0, content_size);
+
+    ID3v2_ApicFrame* frame = ApicFrame_new(
+        header->flags,
+        description,
+        picture_type,
+        mime_type,
+        content_size - picture_position,
+        content + picture_position
+    );
+    frame->data->encoding = encoding;
+    // What the frame lacks, like the termination of a string, won't be written either
+    // because there's no room for it
+    frame->header->size = header->size;
 
     free(content);
     FrameHeader_free(header); // we only needed the header to parse the data
diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 06b5e2b..7454c3a 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -64,20 +64,18 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
     data->short_description = CharStream_read_string(frame_cs, &size);
     const int short_desc_size = ID3v2_strlent(data->short_description);
 
-    if (short_desc_size > strings_size)
-    {
-        // The description is not terminated, so there's no comment
-        free(data->short_description);
-        free(data);
-        FrameHeader_free(header);
-        return NULL;
-    }
-
-    data->size = strings_size - short_desc_size;
+    // If the description is not terminated there's no comment, and the termination it
+    // lacks won't be written either because there's no room for it in the frame
+    data->size = clamp_int(strings_size - short_desc_size, 0, strings_size);
     CharStream_seek(frame_cs, -data->size, SEEK_CUR);
-    data->comment = CharStream_read_string(frame_cs, &data->size);
+    size = data->size;
+    data->comment = CharStream_read_string(frame_cs, &size);
 
-    header->size = fixed_size + short_desc_size + data->size;
+    if (short_desc_size <= strings_size && !FrameHeader_hasEncodedContent(header))
+    {
+        data->size = size;
+        header->size = fixed_size + short_desc_size + size;
+    }
 
     ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
     frame->header = header;
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 30aebd6..c96b3a9 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -47,8 +47,14 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
     // Keep the encoding and everything that follows, there may be several strings
     frame->data->encoding = CharStream_getc(frame_cs);
     frame->data->size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    frame->data->text = CharStream_read_string(frame_cs, &frame->data->size);
-    header->size = ID3v2_FRAME_ENCODING_LENGTH + frame->data->size;
+    int size = frame->data->size;
+    frame->data->text = CharStream_read_string(frame_cs, &size);
+
+    if (!FrameHeader_hasEncodedContent(header))
+    {
+        frame->data->size = size;
+        header->size = ID3v2_FRAME_ENCODING_LENGTH + size;
+    }
 
     return frame;
 }
-- 
2.43.0


From a8832db28eac81c9de99fbdb2c873aedfba759f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 30/30] fix: do not add half a termination to UTF-16BE texts

---
 include/modules/frame.h         | 1 +
 src/modules/frames/text_frame.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/modules/frame.h b/include/modules/frame.h
index 26f1f4d..27194ef 100644
--- a/include/modules/frame.h
+++ b/include/modules/frame.h
@@ -14,6 +14,7 @@
 
 #define ID3v2_ENCODING_ISO 0
 #define ID3v2_ENCODING_UNICODE 1
+#define ID3v2_ENCODING_UNICODE_BE 2
 
 typedef struct _ID3v2_FrameHeader ID3v2_FrameHeader;
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index c96b3a9..3bb5947 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -50,7 +50,9 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
     int size = frame->data->size;
     frame->data->text = CharStream_read_string(frame_cs, &size);
 
-    if (!FrameHeader_hasEncodedContent(header))
+    // Without a byte order mark the termination would be too short
+    if (frame->data->encoding != ID3v2_ENCODING_UNICODE_BE &&
+        !FrameHeader_hasEncodedContent(header))
     {
         frame->data->size = size;
         header->size = ID3v2_FRAME_ENCODING_LENGTH + size;
-- 
2.43.0

