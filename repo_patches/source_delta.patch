From 127ba72a52b8a69b9cb6b70d3ad575e3e4a3d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 01/57] fix: do not skip a whole record when the position is
 already on a record boundary

find_unit_end() added 2880 bytes when the stream was already on a multiple
of 2880, so a header of exactly 36k cards, or data of exactly k records, made
the reader start the next HDU one record too late, and a HDU without data was
written with an extra blank record that cannot be read back.
---
 include/boost/astronomy/io/fits_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..499a611 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,8 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            // A position on a record boundary is already the end of the current record
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From 498f8b420cd166bb0be4405ff5df4af02badfdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 02/57] fix: report the end of file instead of inventing blanks

read() returned blanks past the end of the file: a file cut inside a header
made read_header() loop for ever collecting blank cards, and a file cut inside
a data unit was silently completed with blanks.
---
 include/boost/astronomy/io/fits_stream.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 499a611..9f65f76 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -107,8 +107,12 @@ namespace boost {namespace astronomy {namespace io {
         /**
          * @brief Reads num_bytes from the file from current position as a string
          * @param[in] num_bytes Amount of data to be read in bytes
+         * @throw file_reading_exception If the file has less than num_bytes left
         */
         std::string read(std::size_t num_bytes) {
+            if (num_bytes > remaining_bytes()) {
+                throw file_reading_exception("Unexpected End Of File");
+            }
             std::string data(num_bytes, ' ');
             this->file.read(&data[0], num_bytes);
             return data;
@@ -153,6 +157,21 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
+
+    private:
+        /**
+         * @brief Returns the number of bytes between the current position and the end of file
+        */
+        std::size_t remaining_bytes() {
+            std::fstream::pos_type current_pos = this->file.tellg();
+            if (current_pos == std::fstream::pos_type(-1)) { return 0; }
+
+            this->file.seekg(0, std::ios::end);
+            std::fstream::pos_type end_pos = this->file.tellg();
+            this->file.seekg(current_pos);
+
+            return end_pos > current_pos ? static_cast<std::size_t>(end_pos - current_pos) : 0;
+        }
     };
 
         }
-- 
2.43.0


From bc8ec6a7bf8088fbddc35e4cddb039e9acae63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 03/57] fix: only a '/' after the value starts the comment of a
 card

extract_value() cut the value at the first '/' of the card: a quoted string such
as 'm/s' or a path lost its tail, COMMENT and HISTORY text was cut at a '/' and
lost a character that starts in column 9, and the last character of a value
directly followed by '/' was dropped.
---
 .../astronomy/io/default_card_policy.hpp      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..ec6890f 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -214,7 +214,24 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        // Cards without the value indicator hold free text in which '/' has no meaning
+        if (!in_proper_format(fits_card)) { return fits_card.substr(8); }
+
+        // A '/' inside a quoted string belongs to the value
+        std::size_t comment_search_pos = 10;
+        std::size_t value_start = fits_card.find_first_not_of(' ', 10);
+        if (value_start != std::string::npos && fits_card[value_start] == '\'') {
+            std::size_t closing_quote = fits_card.find('\'', value_start + 1);
+            while (closing_quote != std::string::npos && fits_card.compare(closing_quote, 2, "''") == 0) {
+                closing_quote = fits_card.find('\'', closing_quote + 2);
+            }
+            comment_search_pos = closing_quote;
+        }
+
+        std::size_t value_end = fits_card.find('/', comment_search_pos);
+        if (value_end == std::string::npos) { return fits_card.substr(9); }
+        if (value_end > 10 && fits_card[value_end - 1] == ' ') { --value_end; }
+        return fits_card.substr(9, value_end - 9);
     }
 
 private:
-- 
2.43.0


From f4526d08065d2b84cf92a132a6d0a16555b0b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 04/57] fix: escape and unescape single quotes in string cards

FITS represents a quote within a string by two quotes. The writer emitted it as
is, which closes the string early for every reader (for this one as soon as a
'/' follows), and the reader returned both quotes of a conforming card.
---
 include/boost/astronomy/io/card.hpp                | 7 +++++--
 include/boost/astronomy/io/default_card_policy.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..d759155 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -13,6 +13,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <string>
 #include <sstream>
 
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/type.hpp>
@@ -235,8 +236,10 @@ private:
     */
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
-        if (val[0] == '\'') {
-            return boost::algorithm::trim_copy(std::string(val.begin() + 1, val.end() - 1));
+        if (val.length() > 1 && val[0] == '\'') {
+            // Two successive single quotes within a string represent a single quote
+            return boost::algorithm::trim_copy(
+                boost::algorithm::replace_all_copy(val.substr(1, val.length() - 2), "''", "'"));
         }
         else {
             return val;
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index ec6890f..c6ac2da 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -160,7 +160,11 @@ public:
     std::string serialize_to_fits_format(const std::string& value) const {
         std::string generated_string="";
         generated_string += '\'';
-        generated_string += value;
+        for (char character : value) {
+            // A single quote within a string is represented by two successive single quotes
+            if (character == '\'') { generated_string += '\''; }
+            generated_string += character;
+        }
         generated_string += '\'';
         return generated_string;
     }
-- 
2.43.0


From dd15ec8d9cd92ee312cbce304417631ccafacf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:26 +0000
Subject: [PATCH 05/57] fix: keep every card 80 characters long and report bad
 ones as invalid_card

A card string shorter than 8 characters raised std::out_of_range and a longer
one was stored unpadded, which shifts every following card when the header is
written. create_commentary_card() raised std::length_error for a text that does
not fit and placed the text inside the keyword field for keywords shorter than
7 characters (such as the blank keyword).
---
 include/boost/astronomy/io/card.hpp                | 5 +++--
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index d759155..ee10acd 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -62,6 +62,7 @@ public:
     {
         if (this->is_card_valid(fits_card)) {
             this->card_ = fits_card;
+            this->card_.append(80 - this->card_.length(), ' ');
         }
         else {
             throw invalid_card();
@@ -119,8 +120,8 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+        if (this->is_key_valid(key) && value.length() <= 71) {
+            std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
             return;
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index c6ac2da..65922d2 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -251,7 +251,7 @@ private:
      * @brief Checks whether the card follows the standard specification for cards with non reserved keywords
     */
     bool in_proper_format(const std::string& fits_card)const {
-        return fits_card.substr(8, 2) == "= ";
+        return fits_card.length() >= 10 && fits_card.compare(8, 2, "= ") == 0;
     }
 
     /**
-- 
2.43.0


From 0d851985544290d6db54612cbe0bf9be45b3e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:26 +0000
Subject: [PATCH 06/57] fix: keep the cached value of a card coherent with the
 card

value<T>() threw bad_get once another type had been read, create_card() and
create_commentary_card() left the previous value cached, and set_value() wrote
a card without the value indicator and the padding (so the header could not be
read back) and ignored a value that does not fit.
---
 include/boost/astronomy/io/card.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index ee10acd..83b9f82 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -124,6 +124,7 @@ public:
             std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
+            this->card_cache = boost::blank();
             return;
         }
 
@@ -153,7 +154,7 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        if (boost::get<ReturnType>(&card_cache) == nullptr) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -175,15 +176,7 @@ public:
     template<typename DataType>
     void set_value(DataType value)
     {
-        std::string serialized_value = this->serialize_to_fits_format(value);
-
-        if (this->is_card_valid(this->keyword(), serialized_value, "")) { 
-            std::string key = this->keyword(true);
-            this->card_.clear();
-            this->card_.append(key);
-            this->card_.append(serialized_value);
-            card_cache = value;
-        }
+        create_card_impl(this->keyword(), this->serialize_to_fits_format(value));
     }
 
     /**
@@ -192,12 +185,6 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
-    /**
-     * @brief Checks if the value is internally cached
-    */
-    bool value_cached() const { return card_cache.which() != 0; }
-
-
     /**
      * @brief Creates a card from key, value and comment supplied to the method
     */
@@ -213,6 +200,7 @@ private:
             }
 
             this->card_.append(80 - this->card_.length(), ' ');
+            this->card_cache = boost::blank();
             return;
         }
 
-- 
2.43.0


From 706364550a0a43a242e4429861fc4efec1292721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:26 +0000
Subject: [PATCH 07/57] fix: read back the complex values written by
 create_card

The two parts are written in fields 20 characters wide, but the parser only
accepted a single blank between them.
---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 65922d2..0b32f0a 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -130,7 +130,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
-- 
2.43.0


From 15f419b8a771db6b65611a388f75ce613683f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:26 +0000
Subject: [PATCH 08/57] fix: write floating point cards without losing
 precision

Values were written with 6 significant digits, so 2458849.51234 became
2.45885e+06. They are now written with the fewest digits that give the same
value when read back; text wider than the fixed format (20 characters) is kept
whole rather than making the padding length wrap around.
---
 .../astronomy/io/default_card_policy.hpp      | 53 +++++++++++++++----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 0b32f0a..6a60a0f 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -14,6 +14,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <algorithm>
 #include <sstream>
 #include <complex>
+#include <limits>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
 #include <boost/astronomy/io/string_conversion_utility.hpp>
@@ -143,14 +145,7 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(T value) const {
-        std::string val;
-
-        std::stringstream value_stream;
-        value_stream << value;
-        val = value_stream.str();
-
-        val.insert(0, 20 - val.length(), ' ');
-        return val;
+        return pad_value(to_text(value, std::is_floating_point<T>()));
     }
 
     /**
@@ -183,8 +178,7 @@ public:
      * @param[in] value long long value to serialize to
     */
     std::string serialize_to_fits_format(long long value)const {
-        std::string val = std::to_string(value);
-        return val.insert(0, 20 - val.length(), ' ');
+        return pad_value(std::to_string(value));
     }
 
     /**
@@ -194,7 +188,10 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(std::complex<T> value)const {
-        return serialize_to_fits_format(value.real())+ serialize_to_fits_format(value.imag());        
+        std::string real_part = serialize_to_fits_format(value.real());
+        std::string imag_part = serialize_to_fits_format(value.imag());
+        // Keep the two parts apart when the second one fills its field
+        return imag_part[0] == ' ' ? real_part + imag_part : real_part + ' ' + imag_part;
     }
 
     /**
@@ -240,6 +237,40 @@ public:
 
 private:
 
+    /**
+     * @brief Right justifies a value in the 20 characters of the fixed format ( longer values are kept whole )
+    */
+    static std::string pad_value(std::string val) {
+        if (val.length() < 20) { val.insert(0, 20 - val.length(), ' '); }
+        return val;
+    }
+
+    /**
+     * @brief Converts a value to text
+    */
+    template<typename T>
+    static std::string to_text(T value, std::false_type) {
+        std::stringstream value_stream;
+        value_stream << value;
+        return value_stream.str();
+    }
+
+    /**
+     * @brief Converts a floating point value to the shortest text which gives the same value when parsed
+    */
+    template<typename T>
+    static std::string to_text(T value, std::true_type) {
+        std::string text;
+        for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; ++digits) {
+            std::stringstream value_stream;
+            value_stream.precision(digits);
+            value_stream << value;
+            text = value_stream.str();
+            if (boost::lexical_cast<T>(text) == value) { break; }
+        }
+        return text;
+    }
+
     /**
      * @brief Checks whether the keyword is in list of reserved keywords
     */
-- 
2.43.0


From 482bf1d13ac4ac66575ecd91592c0a92b495ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 09/57] fix: let a header be read again and bound its accessors

Reading into a header that already held one appended the new cards and
dimensions to the old ones. naxis() read outside of the dimensions for an axis
that does not exist, and card_count() of an empty header wrapped around.
---
 include/boost/astronomy/io/header.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..c96eda1 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -71,6 +71,11 @@ public:
     template<typename FileReader>
     void read_header(FileReader& file_reader) {
 
+        cards.clear();
+        key_index.clear();
+        naxis_.clear();
+        hdu_name.clear();
+
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
 
@@ -197,7 +202,7 @@ public:
     */
     std::size_t naxis(std::size_t n = 0) const
     {
-        return this->naxis_[n - 1]; // 1 Based indexing
+        return this->naxis_.at(n - 1); // 1 Based indexing
     }
 
     /**
@@ -232,7 +237,7 @@ public:
      * @return     total number of cards in HDU header
     */
     std::size_t card_count() {
-        return cards.size() - 1; // Last one is END Card ( It will not be counted )
+        return cards.empty() ? 0 : cards.size() - 1; // Last one is END Card ( It will not be counted )
 
     }
 
-- 
2.43.0


From 5a0b914dedb30fbbced7da4de542c8e0d3965994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 10/57] fix: forget the HDUs of the previous file when a reader
 is initialized again

---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..896b419 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -80,6 +80,7 @@ namespace boost { namespace astronomy { namespace io {
         */
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
+            hdu_list.clear();
             hdus_control_block.clear();
             hdus_control_block.filepath = filepath;
         }
-- 
2.43.0


From 95eb7bcde6ec2b0ffa56419005ec84d3c465f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 11/57] fix: accept conforming files without the optional
 keywords EXTEND and EXTNAME

---
 include/boost/astronomy/io/extension_hdu.hpp | 5 ++++-
 include/boost/astronomy/io/primary_hdu.hpp   | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..9540007 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,10 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+        // EXTNAME is an optional keyword
+        if (hdu_header.contains_keyword("EXTNAME")) {
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..a340d6e 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -125,7 +125,8 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        // EXTEND is an optional keyword
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND");
     }
 
     /**
-- 
2.43.0


From 9a20010849079cc4ac34fb7b0531202cafab3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 12/57] fix: decode the pixels of 8-bit images

BITPIX 8 is an unsigned byte in FITS (and in the documentation of the enum), and
the converter has no int8_t decoder: every pixel was read as 0, and written back
as 0.
---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..143799e 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type;
  };
 
  template<>
-- 
2.43.0


From 0c8524d2e03bb7cd71952a4c7498af786b4649ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 13/57] fix: fill the last record of binary data with zeros, as
 FITS requires

---
 include/boost/astronomy/io/binary_table.hpp    | 2 +-
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..fda2c2b 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -134,7 +134,7 @@ public:
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
     /**
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..c5efe73 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -85,7 +85,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 private:
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index a340d6e..cc6a788 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -94,7 +94,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 
-- 
2.43.0


From ffa6741c72e1338c0f615ddb46975a4930e83753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 14/57] fix: report a file that cannot be created or completely
 written

write_to() returned normally when the file could not be created and when the
device was full, leaving no file or a truncated one.
---
 include/boost/astronomy/io/fits_reader.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 896b419..fa4d030 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -131,15 +131,22 @@ namespace boost { namespace astronomy { namespace io {
          * @brief Writes all the HDU's Header and Data information to the file
          * @param[in] file_path Path where the file resides
          * @note The HDUs are written in the order they are stored
+         * @throw file_reading_exception If the file cannot be created or not everything could be written
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_reading_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
             boost::apply_visitor(writer_visitor, hdu);
             }
+
+            if (!file_writer.get_internal_stream().flush()) {
+                throw file_reading_exception("Cannot Write File");
+            }
         }
 
 
-- 
2.43.0


From 6ef9281cdd614e4b16024937cf19c4701f68d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 15/57] fix: decode arrays of array descriptors pair by pair

The second descriptor was read from the second half of the first one and the
first half of the second one.
---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 8cf9aef3edb8bb378cb34e157f4ca96d1344d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 16/57] fix: give bit array columns their size in bytes

A column rX takes ceil(r/8) bytes, not r: every field after it was read from the
wrong place.
---
 include/boost/astronomy/io/binary_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index fda2c2b..2d01ae2 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -158,6 +158,8 @@ public:
                             return c == '\'' || c == ' ';
                         });
         auto no_of_elements = element_count(form);
+        // A bit array is stored in the smallest number of bytes that holds it
+        if (get_type(form) == 'X') { return (no_of_elements + 7) / 8; }
         auto size_type = type_size(get_type(form));
         return no_of_elements * size_type;
     }
@@ -190,6 +192,7 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
+        if (form.empty()) { throw invalid_table_colum_format(); }
         return form[form.length() - 1];
     }
 
@@ -299,7 +302,10 @@ private:
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            this->col_metadata_[i].total_elements(element_count(this->col_metadata_[i].TFORM()));
+            // The elements of a bit array are accessed as bytes
+            this->col_metadata_[i].total_elements(
+                get_type(this->col_metadata_[i].TFORM()) == 'X' ?
+                column_size(this->col_metadata_[i].TFORM()) : element_count(this->col_metadata_[i].TFORM()));
         }
     }
 
-- 
2.43.0


From 2edaed9f7c8d9d15a110fa14ddf16ffeb888f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:12 +0000
Subject: [PATCH 17/57] fix: keep every byte of the fields of a binary table

The fields were trimmed like text, so a value with a leading or trailing 0x20,
0x09..0x0D byte lost it: the value was decoded from the wrong bytes (past the
end of the field) and the row was written back too short. Columns wider than the
row, no columns and missing data were read out of bounds; they are now rejected.
---
 include/boost/astronomy/io/binary_table.hpp | 29 +++++++++------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 2d01ae2..69dc0f4 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -331,27 +331,22 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        // All the fields of all the rows must lie within the data
+        for (auto const& col : this->col_metadata_) {
+            if (col.TBCOL() + column_size(col.TFORM()) > total_characters_per_row) { throw invalid_table_colum_format(); }
+        }
+        if (data_buffer.size() < total_rows * total_characters_per_row) { throw fits_exception(); }
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-        auto current_row = 0;
-        auto current_column = 0;
-
-
-        auto starting_offset = data_buffer.begin();
-        auto ending_offset = starting_offset;
-
-        while (current_row<total_rows) {
-
-            starting_offset = ending_offset;
-            ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
-
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
-            if (current_column % this->tfields_ == 0) {
-                current_row++;
-                current_column = 0;
+        for (std::size_t row = 0; row < total_rows; row++) {
+            for (std::size_t col = 0; col < total_fields; col++) {
+                // Every byte of a binary field is significant, blanks included
+                this->tb_data[row][col] = data_buffer.substr(
+                    row * total_characters_per_row + this->col_metadata_[col].TBCOL(),
+                    column_size(this->col_metadata_[col].TFORM()));
             }
-
         }
     }
 };
-- 
2.43.0


From 3d842cf540fd72d68904067ace011398dd2577f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:06 +0000
Subject: [PATCH 18/57] fix: reject ASCII table columns that do not lie within
 the row

A TBCOL or TFORM outside of the row, missing data, or a table without columns
made set_table_data() read out of bounds (or divide by zero).
---
 include/boost/astronomy/io/ascii_table.hpp | 27 +++++++++++-----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..8f5284b 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -243,23 +243,24 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
+        // All the fields of all the rows must lie within the data
+        for (auto const& col : this->col_metadata_) {
+            if (col.TBCOL() < 1 || col.TBCOL() > total_characters_per_row ||
+                column_size(col.TFORM()) > total_characters_per_row - col.TBCOL() + 1) {
+                throw invalid_table_colum_format();
+            }
+        }
+        if (data_buffer.size() < total_rows * total_characters_per_row) { throw fits_exception(); }
+
         // Initialize table data matrix with total_rows * total_columns elements of type string
         this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-        auto current_row = 0;
-        auto current_column = 0;
-
-        while(current_row< total_rows) {
-            auto starting_offset = data_buffer.begin()+ current_row * total_characters_per_row + this->col_metadata_[current_column].TBCOL() - 1;
-            auto ending_offset = starting_offset + this->column_size(this->col_metadata_[current_column].TFORM());
-
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
-
-            if (current_column % this->tfields_ == 0) {
-                current_row++;
-                current_column = 0;
+        for (std::size_t row = 0; row < total_rows; row++) {
+            for (std::size_t col = 0; col < total_fields; col++) {
+                this->tb_data[row][col] = boost::algorithm::trim_copy(data_buffer.substr(
+                    row * total_characters_per_row + this->col_metadata_[col].TBCOL() - 1,
+                    this->column_size(this->col_metadata_[col].TFORM())));
             }
-
         }
     }
 };
-- 
2.43.0


From 974a8546da8fa7bdd4270c8b5b8b0dc6d20bdee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:06 +0000
Subject: [PATCH 19/57] fix: write the fields of an ASCII table where TBCOL
 says they are

The fields were written one after the other: as soon as the table has a gap
between two columns (as fits_sample1.fits does) the rows came out shorter than
NAXIS1 and every value was read back from the wrong place.
---
 include/boost/astronomy/io/ascii_table.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 8f5284b..f878376 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -147,12 +147,16 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            // Fields start at TBCOL; the characters between them belong to no field
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
-                std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
-                std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                std::size_t field_size = this->column_size(this->col_metadata_[col].TFORM());
+                std::size_t data_size = this->tb_data[row][col].length();
+                if (data_size > field_size) { throw column_exception(); }
+
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1 + field_size - data_size,
+                    data_size, this->tb_data[row][col]);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From 4266c73b1c6575b24be5731a692ffbba2da03f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:06 +0000
Subject: [PATCH 20/57] fix: do not write a binary table whose rows are not
 NAXIS1 bytes long

A field set to a value with another number of elements shifted all the data
after it; write_to() now reports it. Bytes of the row that belong to no column
are written too.
---
 include/boost/astronomy/io/binary_table.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 69dc0f4..42f1c94 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -123,10 +123,13 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), '\0');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
-                row_temp_buffer += this->tb_data[row][col];
+                std::string const& field = this->tb_data[row][col];
+                // A field of another size would shift all the data after it
+                if (field.size() != column_size(this->col_metadata_[col].TFORM())) { throw column_exception(); }
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL(), field.size(), field);
             }
 
             file_writer.write(row_temp_buffer);
-- 
2.43.0


From fec21cbfed875921ab10854340a893b5983f669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:06 +0000
Subject: [PATCH 21/57] fix: take PCOUNT and GCOUNT into account for the size
 of an extension

The heap of a binary table was left out of the size of its data: its bytes were
read as the header of the next HDU, and it was lost when the file was written.
---
 include/boost/astronomy/io/binary_table.hpp |  4 ++++
 include/boost/astronomy/io/fits_reader.hpp  | 12 ++++--------
 include/boost/astronomy/io/header.hpp       | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 42f1c94..99affb0 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -72,6 +72,8 @@ struct basic_binary_table_extension : table_extension<CardPolicy>
          >
     > cached_columns;
 
+    std::string heap_; //! Data after the rows of the table ( PCOUNT bytes )
+
 public:
 
     /**
@@ -134,6 +136,7 @@ public:
 
             file_writer.write(row_temp_buffer);
         }
+        file_writer.write(heap_);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
@@ -351,6 +354,7 @@ private:
                     column_size(this->col_metadata_[col].TFORM()));
             }
         }
+        heap_ = data_buffer.substr(total_rows * total_characters_per_row);
     }
 };
 
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index fa4d030..dd53224 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -100,11 +100,9 @@ namespace boost { namespace astronomy { namespace io {
 
                 hdu_list.push_back(hdu_instance);
 
-                if (hdu_header.data_size() != 0) {
+                if (hdu_header.data_unit_size() != 0) {
 
-                    auto total_elements = hdu_header.data_size();
-                    auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
-                    file_reader.set_reading_pos(file_reader.get_current_pos() + (total_elements*element_size));
+                    file_reader.set_reading_pos(file_reader.get_current_pos() + hdu_header.data_unit_size());
                     file_reader.set_unit_end();
                 }
             }
@@ -197,13 +195,11 @@ namespace boost { namespace astronomy { namespace io {
          * @param[in] hdu_header Header information related to the current HDU
         */
         std::string extract_data_buffer(typename ExtensionsSupported::header_type& hdu_header) {
-            if (hdu_header.data_size() == 0) {
+            if (hdu_header.data_unit_size() == 0) {
                 return "";
             }
             else {
-                auto total_elements = hdu_header.data_size();
-                auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
-                std::string data_buffer = file_reader.read(total_elements * element_size);
+                std::string data_buffer = file_reader.read(hdu_header.data_unit_size());
                 file_reader.set_unit_end();
                 return data_buffer;
             }
diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index c96eda1..b927994 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -219,6 +219,22 @@ public:
         return std::accumulate(naxis_.begin(), naxis_.end(), static_cast<std::size_t > (1), std::multiplies<std::size_t>());
     }
 
+    /**
+     * @brief   Returns the size in bytes of the data associated with the HDU ( without the fill up to the record end )
+     * @details For extensions PCOUNT and GCOUNT are taken into account, for instance PCOUNT is
+     *          the size of the heap that follows the rows of a binary table
+    */
+    std::size_t data_unit_size() {
+        if (naxis_.empty()) { return 0; }
+
+        std::size_t total_elements = data_size();
+        if (contains_keyword("XTENSION")) {
+            if (contains_keyword("PCOUNT")) { total_elements += value_of<std::size_t>("PCOUNT"); }
+            if (contains_keyword("GCOUNT")) { total_elements *= value_of<std::size_t>("GCOUNT"); }
+        }
+        return total_elements * get_element_size_from_bitpix(this->bitpix_value);
+    }
+
     /**
      * @brief       Gets the value associated with a perticular keyword
      * @param[in]   key Keyword whose value is to be queried
-- 
2.43.0


From 872f3bd5355113e88b60a314aae6b83e3a33429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:32 +0000
Subject: [PATCH 22/57] fix: give TSCAL and TZERO of a column their default
 values

The metadata of a column without these optional keywords was uninitialized.
---
 include/boost/astronomy/io/column.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..8edac06 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -39,7 +39,7 @@ public:
     /**
      * @brief   Constructs a standalone object of column structure
     */
-    column(){}
+    column(): index_(0), start(0), scale(1), zero(0), total_elem_field(0) {}
 
     /**
      * @details     Constructs a column object and sets the value for
-- 
2.43.0


From ef3a9ae3fd023b88511bfa96a916605bcb15e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:32 +0000
Subject: [PATCH 23/57] fix: do not share column views between tables or keep
 them over set_data

The views cached in a table were copied along with it, so get_column() of a copy
read and changed the data of the original (or of a destroyed table), and after
set_data() it returned the values of the previous data.
---
 include/boost/astronomy/io/ascii_table.hpp  | 14 ++++++++++++++
 include/boost/astronomy/io/binary_table.hpp | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index f878376..d6d71ca 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,19 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief      Copies the table; column views refer to the table they were made from and are not copied
+     * @param[in]  other Table to copy from
+    */
+    basic_ascii_table(basic_ascii_table const& other) :
+        table_extension<CardPolicy>(other) {}
+
+    basic_ascii_table& operator = (basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
@@ -73,6 +86,7 @@ public:
     void set_data(const std::string& data_buffer) {
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
+        this->cached_columns.clear();
         set_ascii_table_info(data_buffer);
     }
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 99affb0..356ee10 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -81,6 +81,20 @@ public:
     */
     basic_binary_table_extension() {}
 
+    /**
+     * @brief      Copies the table; column views refer to the table they were made from and are not copied
+     * @param[in]  other Table to copy from
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) :
+        table_extension<CardPolicy>(other), heap_(other.heap_) {}
+
+    basic_binary_table_extension& operator = (basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->heap_ = other.heap_;
+        this->cached_columns.clear();
+        return *this;
+    }
+
     
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
@@ -150,6 +164,7 @@ public:
     void set_data(const std::string& data_buffer) {
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
+        this->cached_columns.clear();
         set_binary_table_info(data_buffer);
     }
 
-- 
2.43.0


From 8fe104918055f91b1a057c7a3e1152708bf53529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:32 +0000
Subject: [PATCH 24/57] fix: let operator() find the pixels of an image read
 from a file

The width of the image was never set, so operator()(x, y) used an uninitialized
row length and read anywhere.
---
 include/boost/astronomy/io/image.hpp           | 16 +++++++++++-----
 include/boost/astronomy/io/image_extension.hpp |  2 +-
 include/boost/astronomy/io/primary_hdu.hpp     |  2 +-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..0e205fb 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -17,6 +17,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <cmath>
 #include <numeric>
 #include <valarray>
+#include <vector>
 
 #include <boost/endian/conversion.hpp>
 #include <boost/cstdfloat.hpp>
@@ -32,8 +33,8 @@ struct image_buffer
 {
 protected:
     std::valarray<PixelType> data_; //! stores the image
-    std::size_t width_; //! width of image
-    std::size_t height_; //! height of image
+    std::size_t width_ = 0; //! width of image
+    std::size_t height_ = 0; //! height of image
     //std::fstream image_file; //! image file
 
     /**
@@ -163,11 +164,12 @@ public:
 struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
+    std::vector<std::size_t> naxis;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    read_image_visitor(const std::string& data_buf, const std::vector<std::size_t>& all_naxis) :data_buffer(data_buf), naxis(all_naxis) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) { type.read_image(data_buffer, naxis); }
 };
 
 /**
@@ -194,11 +196,15 @@ public:
     /**
      * @brief Reads an image from the data buffer
      * @param[in] data_buffer Data associated with image HDU or primary HDU
+     * @param[in] naxis Number of elements of each dimension of the image
     */
-    void read_image(const std::string& data_buffer) {
+    void read_image(const std::string& data_buffer, const std::vector<std::size_t>& naxis = {}) {
 
         if (data_buffer.empty()) { return; }
 
+        this->width_ = naxis.size() > 0 ? naxis[0] : 0;
+        this->height_ = naxis.size() > 1 ? naxis[1] : 1;
+
         auto element_size = get_element_size_from_bitpix(bitpix_val);
         std::string::const_iterator raw_data_iter=data_buffer.begin();
 
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index c5efe73..cd45df6 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,7 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, this->hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index cc6a788..ed137c6 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0


From 3f09863e4b0bc1f926e6d484f2b8f14abcb1294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:31 +0000
Subject: [PATCH 25/57] fix: read real numbers with a D exponent

D is the exponent letter of double precision values in FITS headers and in the
Dw.d columns of ASCII tables; they were rejected with invalid_cast.
---
 include/boost/astronomy/io/string_conversion_utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..229d0ca 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -8,8 +8,11 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_STRING_CONVERSION_UTILITY_HPP
 #define BOOST_ASTRONOMY_IO_STRING_CONVERSION_UTILITY_HPP
 
+#include <algorithm>
 #include <sstream>
 #include <limits>
+#include <string>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
@@ -34,6 +37,12 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
+                if (std::is_floating_point<T>::value) {
+                    // FITS writes the exponent of a real number with E or D
+                    std::string real_str = convert_str;
+                    std::replace(real_str.begin(), real_str.end(), 'D', 'E');
+                    return boost::lexical_cast<T>(real_str);
+                }
                 return boost::lexical_cast<T>(convert_str);
             }
             catch (bad_lexical_cast&) {
-- 
2.43.0


From 6837e80b0a4e419dc98628d21b96fd9d393a9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:31 +0000
Subject: [PATCH 26/57] fix: keep the hours, minutes and seconds a decimal_hour
 is made from

get_hours(), get_minutes(), get_seconds() and operator<< gave 0h 0m 0s.
---
 include/boost/astronomy/time/parser.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..8ace2b8 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -38,6 +38,13 @@ public:
 
     decimal_hour(double const& h,double const& m,double const& s){
       dh = h + m/60 + s/(60*60);
+
+      time = dh;
+      hours = (long int)h;
+      minutesRemainder = (h - hours) * 60 + m;
+      minutes = (long int)minutesRemainder;
+      secondsRemainder = (minutesRemainder - minutes) * 60 + s;
+      seconds = secondsRemainder;
     }
 
     double get() const{
-- 
2.43.0


From b9998eeaef6f4e2cc65ced0dbcc341c4e60879f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:31 +0000
Subject: [PATCH 27/57] fix: start the Gregorian calendar on 1582 October 15 in
 julian_date

The comparison used October 1, so that the Julian date went back by 9 days
between October 1 and October 2.
---
 include/boost/astronomy/time/time_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..07f1fb9 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -56,8 +56,8 @@ double julian_date(boost::posix_time::ptime t)
 
     //Calculate B, check if the date is later than 1582 October 15
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
-    if ( dt > dt1 )
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 15);
+    if ( dt >= dt1 )
     {
         double A = floor(yprime / 100);
         B = 2 - A + floor(A / 4);
-- 
2.43.0


From 42e98b8fcccf74f73c3a5bbf27ced4fe92d9eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:31 +0000
Subject: [PATCH 28/57] fix: do not drop the fraction of the second in GST

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 07f1fb9..d628bb6 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,7 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double UT = t.time_of_day().total_microseconds() / 3600000000.0;
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From 0630c567e187ddfb6819d25fa96e44c6849fbfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:31 +0000
Subject: [PATCH 29/57] fix: make galactic_to_ra_dec the inverse of
 ra_dec_to_galactic

The inverse of the rotation is its transpose; the matrix was not, so galactic
coordinates were converted to a wrong place in the sky.
---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From 7ffd0ae31687a6181adb6de3e9538e658249018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:31 +0000
Subject: [PATCH 30/57] fix: do not return NaN for directions at the pole of a
 coordinate system

---
 include/boost/astronomy/coordinate/utility/utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 4b6454f..c614134 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -9,6 +9,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #define BOOST_ASTRONOMY_UTILITY_HPP
 
 #include <iostream>
+#include <algorithm>
 #include <utility>
 #include <cmath>
 
@@ -296,7 +297,8 @@ struct extract_coordinates{
     double p = column_vector(2,0);
 
     theta = atan2(n,m);
-    phi = asin(p);
+    // Rounding may leave p slightly outside of the domain of asin
+    phi = asin(std::max(-1.0, std::min(1.0, p)));
   }
 
   pair<angle_radian,angle_radian> get_coordinates() const{
-- 
2.43.0


From 21e5a90eee5854b97b7c2046369744d76850fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 31/57] fix: let the observation time of a CIRS coordinate be
 read and set

---
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From 0019aa7257e782b33b5ed3c40055d308cc331578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 32/57] fix: let the azimuth of an alt_az coordinate be set to
 an angle

---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
-- 
2.43.0


From 3d14b1e16d66f25bda138fe6b42d5d04b77b49c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:10 +0000
Subject: [PATCH 33/57] fix: let the longitude of a supergalactic coordinate be
 set

---
 include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..0b8e8aa 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -202,7 +202,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
-- 
2.43.0


From 868aa5879202890e4dc4d09f2be0abc7b5260033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 34/57] fix: return a vector of length one from unit_vector for
 mixed units

---
 include/boost/astronomy/coordinate/arithmetic.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/arithmetic.hpp b/include/boost/astronomy/coordinate/arithmetic.hpp
index 2a4b024..c514974 100644
--- a/include/boost/astronomy/coordinate/arithmetic.hpp
+++ b/include/boost/astronomy/coordinate/arithmetic.hpp
@@ -343,14 +343,17 @@ unit_vector(cartesian_representation<Args...> const& vector)
     > tempPoint;
     auto mag = magnitude(vector); //magnitude of vector
 
+    typedef typename cartesian_representation<Args...>::quantity1 quantity1;
+    typedef typename cartesian_representation<Args...>::quantity2 quantity2;
+    typedef typename cartesian_representation<Args...>::quantity3 quantity3;
+
     //performing calculations to find unit vector
+    //(the length of the result is 1 in the unit of the first component)
     bg::set<0>(tempPoint, vector.get_x().value() / mag.value());
-    bg::set<1>(tempPoint,
-        vector.get_y().value() /
-        static_cast<typename cartesian_representation<Args...>::quantity2>(mag).value());
-    bg::set<2>(tempPoint,
-        vector.get_z().value() /
-        static_cast<typename cartesian_representation<Args...>::quantity3>(mag).value());
+    bg::set<1>(tempPoint, static_cast<quantity2>(quantity1::from_value(
+        static_cast<quantity1>(vector.get_y()).value() / mag.value())).value());
+    bg::set<2>(tempPoint, static_cast<quantity3>(quantity1::from_value(
+        static_cast<quantity1>(vector.get_z()).value() / mag.value())).value());
 
     return cartesian_representation<Args...>(tempPoint);
 }
-- 
2.43.0


From 466ef31e1ddd400a0cd1c9eb2c283026bb4938d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 35/57] fix: do not return NaN for the separation of parallel
 directions

---
 .../astronomy/coordinate/ref_frame/base_frame.hpp    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..989d7db 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -105,10 +105,14 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
-        return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
-        );
+        double cosine = (dot(this->data, other.get_data()) /
+            (magnitude(this->data) * magnitude(other.get_data()))).value();
+
+        //rounding may take the cosine of parallel directions out of the domain of acos
+        if (cosine > 1.0) { cosine = 1.0; }
+        if (cosine < -1.0) { cosine = -1.0; }
+
+        return bu::quantity<bu::si::plane_angle>::from_value(std::acos(cosine));
     }
 
 };
-- 
2.43.0


From 72a1f374574f5d12b1545766436f5c6189683178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 36/57] fix: keep the quotes of the text of a commentary card

---
 include/boost/astronomy/io/card.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 83b9f82..9f8aa39 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -225,7 +225,8 @@ private:
     */
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
-        if (val.length() > 1 && val[0] == '\'') {
+        // Only the value of a card with the value indicator can be quoted
+        if (val.length() > 1 && val[0] == '\'' && this->card_.compare(8, 2, "= ") == 0) {
             // Two successive single quotes within a string represent a single quote
             return boost::algorithm::trim_copy(
                 boost::algorithm::replace_all_copy(val.substr(1, val.length() - 2), "''", "'"));
-- 
2.43.0


From 46327f8844b974c79ea79084b53724b6feae570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:38 +0000
Subject: [PATCH 37/57] fix: write the largest floating point values to cards

---
 include/boost/astronomy/io/default_card_policy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 6a60a0f..e2cf7fb 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -266,7 +266,9 @@ private:
             value_stream.precision(digits);
             value_stream << value;
             text = value_stream.str();
-            if (boost::lexical_cast<T>(text) == value) { break; }
+            T parsed;
+            // Rounding to fewer digits may overflow
+            if (boost::conversion::try_lexical_convert(text, parsed) && parsed == value) { break; }
         }
         return text;
     }
-- 
2.43.0


From d49c0149bfb38cfbe538c9f48d127e5cdedac9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:22 +0000
Subject: [PATCH 38/57] fix: keep a stream usable after asking for the end of
 file

---
 include/boost/astronomy/io/fits_stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9f65f76..05d6bbf 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -123,7 +123,10 @@ namespace boost {namespace astronomy {namespace io {
         */
         bool at_end() {
 
-            return (this->file.peek(), this->file.eof());
+            bool end_reached = (this->file.peek(), this->file.eof());
+            // The answer must not disable the stream ( seeking and asking again stay possible )
+            if (end_reached && !this->file.bad()) { this->file.clear(); }
+            return end_reached;
         }
 
         /**
-- 
2.43.0


From 41047ee10f99565bb30c35e622a56fdbc0257065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:28 +0000
Subject: [PATCH 39/57] fix: let the fields of a string column of an ASCII
 table be edited

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 229d0ca..adc211c 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -69,6 +69,14 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+        /**
+         * @brief Serializes a string, which is its own representation
+         * @param[in] value The value to be serialized
+        */
+        static std::string serialize(std::string const& value) {
+            return value;
+        }
+
     };
 
 
-- 
2.43.0


From 96461749e50631d659163b727de1cd1b43fb0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:16 +0000
Subject: [PATCH 40/57] fix: report a data unit of invalid size instead of
 reading headers for ever

---
 include/boost/astronomy/io/fits_reader.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index dd53224..ab191c9 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -102,7 +102,13 @@ namespace boost { namespace astronomy { namespace io {
 
                 if (hdu_header.data_unit_size() != 0) {
 
-                    file_reader.set_reading_pos(file_reader.get_current_pos() + hdu_header.data_unit_size());
+                    std::size_t data_location = file_reader.get_current_pos();
+                    std::size_t data_end = data_location + hdu_header.data_unit_size();
+                    // A negative or too large size would lead back to data already read
+                    if (data_end < data_location) {
+                        throw file_reading_exception("Invalid Size Of Data Unit");
+                    }
+                    file_reader.set_reading_pos(data_end);
                     file_reader.set_unit_end();
                 }
             }
-- 
2.43.0


From 7148496e5b75755796ba2ca9306581296cdacb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:39 +0000
Subject: [PATCH 41/57] fix: keep the sign of dlon_coslat when a differential
 is converted or scaled

---
 .../diff/spherical_coslat_differential.hpp    | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..d42b4a4 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -268,9 +268,6 @@ public:
     auto operator *(OtherQuantity const& dt) const
     {
 
-        spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
-
         spherical_coslat_differential
         <
             CoordinateType,
@@ -284,9 +281,9 @@ public:
             >
         > product
         (
-            temp.get_dlat(),
-            temp.get_dlon_coslat(),
-            temp.get_ddist() * dt
+            this->get_dlat(),
+            this->get_dlon_coslat(),
+            this->get_ddist() * dt
         );
 
         return product;
@@ -452,13 +449,20 @@ auto make_spherical_coslat_differential
     temp.set_dlon(temp.get_dlon() * cos(static_cast<bu::quantity
         <bu::si::plane_angle, typename spherical_type::type>>(temp.get_dlat()).value()));
 
+    typedef bu::quantity<bu::si::plane_angle, typename spherical_type::type> angle_type;
+
     return spherical_coslat_differential
         <
             typename spherical_type::type,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
-            bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
+            angle_type,
+            angle_type,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >
+        (
+            static_cast<angle_type>(temp.get_dlat()),
+            static_cast<angle_type>(temp.get_dlon()),
+            temp.get_ddist()
+        );
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From 899490d081ba289e2ec3a9a9645190522fe0b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 42/57] fix: add differentials with a cos(latitude) term as
 vectors

---
 .../coordinate/diff/spherical_coslat_differential.hpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index d42b4a4..1508f7b 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
-- 
2.43.0


From edcb21c73b6fb2607d91bfe302e2c95d8f5b4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:24 +0000
Subject: [PATCH 43/57] fix: convert the proper motion of a frame to the units
 it is returned in

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 989d7db..1d33b57 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -58,10 +58,15 @@ public:
         typename Differential::quantity2
     > get_proper_motion() const
     {
+        //the angles of a differential are stored in radians
+        typedef bu::quantity<bu::si::plane_angle, typename Differential::type> angle;
+
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            static_cast<typename Differential::quantity1>
+                (angle::from_value(bg::get<0>(motion.get_differential()))),
+            static_cast<typename Differential::quantity2>
+                (angle::from_value(bg::get<1>(motion.get_differential())))
         );
     }
 
-- 
2.43.0


From 563ab79cb7362eaefb0d65181f2bdea5e941fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:24 +0000
Subject: [PATCH 44/57] fix: measure the angular separation from latitude and
 longitude

---
 .../coordinate/ref_frame/base_frame.hpp       | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 1d33b57..1785679 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -110,14 +110,21 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
-        double cosine = (dot(this->data, other.get_data()) /
-            (magnitude(this->data) * magnitude(other.get_data()))).value();
+        typedef bu::quantity<bu::si::plane_angle> angle;
 
-        //rounding may take the cosine of parallel directions out of the domain of acos
-        if (cosine > 1.0) { cosine = 1.0; }
-        if (cosine < -1.0) { cosine = -1.0; }
+        double lat1 = static_cast<angle>(this->data.get_lat()).value();
+        double lat2 = static_cast<angle>(other.get_data().get_lat()).value();
+        double diff = static_cast<angle>(other.get_data().get_lon()).value() -
+            static_cast<angle>(this->data.get_lon()).value();
 
-        return bu::quantity<bu::si::plane_angle>::from_value(std::acos(cosine));
+        //great-circle distance, in a form accurate for every separation
+        double y1 = std::cos(lat2) * std::sin(diff);
+        double y2 = std::cos(lat1) * std::sin(lat2) -
+            std::sin(lat1) * std::cos(lat2) * std::cos(diff);
+        double x = std::sin(lat1) * std::sin(lat2) +
+            std::cos(lat1) * std::cos(lat2) * std::cos(diff);
+
+        return angle::from_value(std::atan2(std::sqrt(y1 * y1 + y2 * y2), x));
     }
 
 };
-- 
2.43.0


From f85f94583f99a84e853fa7fca0f29fddf6717fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:15 +0000
Subject: [PATCH 45/57] fix: let the make functions of coordinates take angles
 of different units

---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From d418b97cdf16bb9ffafb1e47b1c9a6fc97616dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:38 +0000
Subject: [PATCH 46/57] fix: start representations and differentials at zero,
 the direction of the origin was left uninitialised

---
 include/boost/astronomy/coordinate/diff/base_differential.hpp  | 2 +-
 include/boost/astronomy/coordinate/rep/base_representation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/base_differential.hpp b/include/boost/astronomy/coordinate/diff/base_differential.hpp
index eccb035..eeb619c 100644
--- a/include/boost/astronomy/coordinate/diff/base_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/base_differential.hpp
@@ -40,7 +40,7 @@ struct base_differential
         "DimensionCount is expected to be 2 or 3");
     ///@endcond
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> diff{};
 
 public:
 
diff --git a/include/boost/astronomy/coordinate/rep/base_representation.hpp b/include/boost/astronomy/coordinate/rep/base_representation.hpp
index 5b522f4..12f3c87 100644
--- a/include/boost/astronomy/coordinate/rep/base_representation.hpp
+++ b/include/boost/astronomy/coordinate/rep/base_representation.hpp
@@ -42,7 +42,7 @@ struct base_representation
     ///@endcond
 
 protected:
-    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point;
+    bg::model::point<CoordinateType, DimensionCount, CoordinateSystem> point{};
 
 public:
 
-- 
2.43.0


From 069dd59aba76a62e5b80c53079a001767fdf0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:12 +0000
Subject: [PATCH 47/57] fix: write the field when it is assigned from another
 field, and show the value assigned

---
 include/boost/astronomy/io/column_data.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index f14f387..0a6a30d 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -51,8 +51,19 @@ public:
     */
     DataType operator = (DataType value)  {
         this->callback_ptr->update_value(index, value);
+        this->value = value;
         return value;
     }
+
+    Proxy(Proxy const&) = default;
+
+    /**
+     * @brief Updates the value of field with the value of another field
+     * @param[in] other Field whose value replaces the old value
+    */
+    DataType operator = (Proxy const& other) {
+        return *this = static_cast<DataType>(other);
+    }
 };
 
 
-- 
2.43.0


From b420a5d607756a8dc4c6cf9d1668ecdeb4cc056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:08 +0000
Subject: [PATCH 48/57] fix: report a field that is too short for its type
 instead of reading behind it

---
 .../astronomy/io/binary_data_converter.hpp    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index d2829ae..e841e5f 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -18,6 +18,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include<boost/algorithm/string.hpp>
 #include<boost/cstdfloat.hpp>
 #include<boost/endian/conversion.hpp>
+#include<boost/astronomy/exception/fits_exception.hpp>
 #include<boost/astronomy/io/column.hpp>
 #include<boost/lexical_cast.hpp>
 #include<type_traits>
@@ -55,7 +56,17 @@ namespace boost{namespace astronomy{namespace io{
  */
     struct binary_data_converter {
 
-    
+        /**
+         * @brief  Reports data which is too short for the elements requested from it
+         * @param[in] data  data in binary format
+         * @param[in] required  Number of bytes the elements occupy
+        */
+        static void require_size(const std::string& data, std::size_t required) {
+            if (data.size() < required) {
+                throw invalid_cast("Field is too short for the required Type");
+            }
+        }
+
         /**
          * @brief  Deserializes single element in binary form to its original type
          * @tparam NumericType Original Type in which element is to be returned
@@ -64,6 +75,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename NumericType, typename AssumeType = NumericType>
         static NumericType element_to_numeric(const std::string& element) {
+            require_size(element, sizeof(AssumeType));
             AssumeType temp = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -82,6 +94,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename NumericType, typename AssumeType = NumericType>
         static std::vector<NumericType> elements_to_numeric_collection(
             const std::string& elements, std::size_t no_elements) {
+            require_size(elements, no_elements * sizeof(NumericType));
             std::vector<NumericType> values;
             values.resize(no_elements);
 
@@ -110,6 +123,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename ComplexType, typename AssumeType = ComplexType>
         static std::complex<ComplexType> element_to_complex(const std::string& element) {
+            require_size(element, 2 * sizeof(AssumeType));
             AssumeType temp_real = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -135,6 +149,7 @@ namespace boost{namespace astronomy{namespace io{
         static std::vector<std::complex<ComplexType>> elements_to_complex_collection(
             const std::string& elements, std::size_t no_elements) {
 
+            require_size(elements, no_elements * 2 * sizeof(ComplexType));
             std::vector<std::complex<ComplexType>> values;
             values.reserve(no_elements);
 
@@ -170,6 +185,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename ByteType>
         static std::vector<ByteType> elements_to_byte_collection(const std::string& elements,
             std::size_t no_elements) {
+            require_size(elements, no_elements);
             return std::vector<ByteType>(elements.begin(),
                 elements.begin() + no_elements);
         }
@@ -312,6 +328,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+        require_size(element, 2 * sizeof(boost::int32_t));
         auto x = boost::endian::big_to_native(
             *reinterpret_cast<const boost::int32_t*>(element.c_str()));
         auto y = boost::endian::big_to_native(
@@ -320,6 +337,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+        require_size(elements, num_elements * 2 * sizeof(boost::int32_t));
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
         values.reserve(num_elements);
         for (std::size_t i = 0; i < num_elements; i++) {
-- 
2.43.0


From 79235a80cd9391349d90f2b11dd1fae3e34a97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:08 +0000
Subject: [PATCH 49/57] fix: let all views of a column show the same fields,
 and blank fields be written

---
 include/boost/astronomy/io/column_data.hpp | 33 +++++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index 0a6a30d..f90311b 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -11,8 +11,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <string>
 #include <cstddef>
+#include <exception>
 #include <vector>
-#include <unordered_map>
 #include <sstream>
 #include <boost/static_assert.hpp>
 #include <boost/astronomy/io/column.hpp>
@@ -35,23 +35,29 @@ struct Proxy {
 private:
     int index;
     DataType value;
+    std::exception_ptr error;   // why the field has no value of this type
     column_view<DataType,Converter>* callback_ptr;
 public:
-    Proxy(DataType val, column_view<DataType,Converter>* callbck_ptr, int row) : value(val), callback_ptr(callbck_ptr),index(row){}
+    Proxy(DataType val, column_view<DataType,Converter>* callbck_ptr, int row, std::exception_ptr err = nullptr) :
+        value(val), error(err), callback_ptr(callbck_ptr),index(row){}
 
     /**
      * @brief Returns the value stored in the proxy
      * @note  This converter operator gets executed at the time of Reading a value ( Right Side of expr )
     */
-    operator DataType () const  { return value; }
+    operator DataType () const  {
+        if (error) { std::rethrow_exception(error); }
+        return value;
+    }
 
     /**
-     * @brief Updates the value of field both in cache and main table structure
+     * @brief Updates the value of field in main table structure
      * @param[in] value Replacement value for the old value
     */
     DataType operator = (DataType value)  {
         this->callback_ptr->update_value(index, value);
         this->value = value;
+        this->error = nullptr;
         return value;
     }
 
@@ -75,7 +81,6 @@ template<typename DataType,typename Converter>
 struct column_view:column{
 private:
     std::vector<std::vector<std::string>>* table_ref;
-    std::unordered_map<int, DataType> cached_index;
 public:
     /**
      * @brief Default constructor for storage
@@ -156,7 +161,6 @@ public:
      * @brief Updates the element at perticular row of the associated column in HDU table
     */
     void update_value(int row, DataType new_value){
-        cached_index[row] = new_value;
         (*table_ref)[row][this->index()-1] = Converter::serialize(new_value);
     }
 
@@ -166,15 +170,16 @@ public:
    */
     Proxy<DataType,Converter> operator [](int row_number) {
 
-        auto cached_iter = cached_index.find(row_number);
-        
-        if (cached_iter != cached_index.end()) {
-            return Proxy<DataType,Converter>(cached_iter->second, this,row_number);
+        // The field may have been changed through another view, so it is always read from the table
+        auto const& raw_data_str = (*table_ref)[row_number][this->index()-1];
+        try {
+            return Proxy<DataType,Converter>(
+                Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()), this,row_number);
+        }
+        catch (std::exception&) {
+            // A field without a value can still be written; reading it reports the error
+            return Proxy<DataType,Converter>(DataType(), this, row_number, std::current_exception());
         }
-
-        auto raw_data_str = (*table_ref)[row_number][this->index()-1];
-        cached_index.emplace(row_number, Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()));
-        return Proxy<DataType,Converter>(cached_index.find(row_number)->second, this,row_number);
     }
 
 };
-- 
2.43.0


From cadccdf5ec6f2da1af90b3488a2e0a111633d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:15 +0000
Subject: [PATCH 50/57] fix: keep the digits of real numbers written to an
 ASCII table

---
 include/boost/astronomy/io/ascii_table.hpp    | 10 ++++-
 .../io/string_conversion_utility.hpp          | 44 ++++++++++++++++++-
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index d6d71ca..6147383 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -21,6 +21,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <boost/astronomy/io/column.hpp>
 #include <boost/astronomy/io/column_data.hpp>
 #include <boost/astronomy/io/table_extension.hpp>
+#include <boost/astronomy/io/string_conversion_utility.hpp>
 #include <boost/endian/conversion.hpp>
 #include <boost/variant.hpp>
 #include <boost/cstdfloat.hpp>
@@ -166,11 +167,16 @@ public:
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
                 std::size_t field_size = this->column_size(this->col_metadata_[col].TFORM());
-                std::size_t data_size = this->tb_data[row][col].length();
+                char field_type = this->get_type(this->col_metadata_[col].TFORM());
+                std::string field = this->tb_data[row][col];
+                if (field.length() > field_size && (field_type == 'F' || field_type == 'E' || field_type == 'D')) {
+                    field = ascii_converter::fit_real(field, field_size);
+                }
+                std::size_t data_size = field.length();
                 if (data_size > field_size) { throw column_exception(); }
 
                 row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1 + field_size - data_size,
-                    data_size, this->tb_data[row][col]);
+                    data_size, field);
             }
             file_writer.write(row_temp_buffer);
         }
diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index adc211c..ca943fd 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -56,7 +56,7 @@ namespace boost{namespace astronomy{namespace io{
          * @tparam T Type of value which needs to be serialized
         */
         template<typename T>
-        static std::string serialize(T value) {
+        static typename std::enable_if<!std::is_floating_point<T>::value, std::string>::type serialize(T value) {
             return
                 boost::hana::eval_if(std::numeric_limits<T>::is_integer,
                     [&value] {return std::to_string(value); },
@@ -69,6 +69,35 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+        /**
+         * @brief Serializes a floating point value to the shortest text which gives the same value when parsed
+         * @param[in] value The value to be serialized
+        */
+        template<typename T>
+        static typename std::enable_if<std::is_floating_point<T>::value, std::string>::type serialize(T value) {
+            std::string text;
+            for (int digits = min_digits; digits <= std::numeric_limits<T>::max_digits10; ++digits) {
+                text = to_text(value, digits);
+                T parsed;
+                if (boost::conversion::try_lexical_convert(text, parsed) && parsed == value) { break; }
+            }
+            return text;
+        }
+
+        /**
+         * @brief Shortens the text of a floating point value to a field by rounding it
+         * @param[in] text Text of the value
+         * @param[in] width Number of characters of the field
+         * @return Returns text which is longer than width if the value does not fit
+        */
+        static std::string fit_real(std::string const& text, std::size_t width) {
+            std::string fitted = text;
+            for (int digits = std::numeric_limits<double>::max_digits10; fitted.length() > width && digits >= min_digits; --digits) {
+                fitted = to_text(deserialize_to<double>(text, 1), digits);
+            }
+            return fitted;
+        }
+
         /**
          * @brief Serializes a string, which is its own representation
          * @param[in] value The value to be serialized
@@ -77,6 +106,19 @@ namespace boost{namespace astronomy{namespace io{
             return value;
         }
 
+    private:
+
+        // Least number of significant digits kept of a floating point value
+        enum { min_digits = 6 };
+
+        template<typename T>
+        static std::string to_text(T value, int digits) {
+            std::stringstream conversion_stream;
+            conversion_stream.precision(digits);
+            conversion_stream << value;
+            return conversion_stream.str();
+        }
+
     };
 
 
-- 
2.43.0


From 6de7c121ffe57e58b18600f290221fa506e0cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:31 +0000
Subject: [PATCH 51/57] fix: do not let asking for the name of an HDU change
 whether headers are equal

---
 include/boost/astronomy/io/header.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index b927994..c8f3a68 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -43,7 +43,6 @@ struct header
 protected:
     boost::astronomy::io::bitpix bitpix_value; //! stores the BITPIX value (enum bitpix)
     std::vector<std::size_t> naxis_; //! values of all naxis (NAXIS, NAXIS1, NAXIS2...)
-    std::string hdu_name;
 
     //! Stores the each card in header unit (80 char key value pair)
     std::vector<card<CardPolicy>> cards;
@@ -59,7 +58,6 @@ public:
    bool operator == (const header& other) {
        return bitpix_value == other.bitpix_value &&
            this->naxis_ == other.naxis_ &&
-           this->hdu_name == other.hdu_name &&
            this->cards == other.cards &&
            this->key_index == other.key_index;
    }
@@ -74,7 +72,6 @@ public:
         cards.clear();
         key_index.clear();
         naxis_.clear();
-        hdu_name.clear();
 
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
@@ -157,8 +154,7 @@ public:
         // Check if its a extension
         try {
 
-            hdu_name = value_of < std::string>("XTENSION");
-            return hdu_name;
+            return value_of < std::string>("XTENSION");
         }
         catch (...) {}
 
-- 
2.43.0


From a8f3cebeb0c6f2844af93b5dd7f8b9335a3087d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 52/57] fix: quote a string literal given as the value of a
 card

---
 include/boost/astronomy/io/default_card_policy.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index e2cf7fb..97d8d53 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -164,6 +164,14 @@ public:
         return generated_string;
     }
 
+    /**
+     * @brief Serializes a string literal as the string it is
+     * @param[in] value Value to be serialized
+    */
+    std::string serialize_to_fits_format(const char* value) const {
+        return serialize_to_fits_format(std::string(value));
+    }
+
     /**
      * @brief Serializes a boolean to string and pads it according to requirements in FITS standard
      * @param[in] value Boolean value to serialize to
-- 
2.43.0


From b73c85bd11e956ee8603c01d55400cea78fd1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 53/57] fix: keep the leading blanks of a string value

---
 include/boost/astronomy/io/card.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 9f8aa39..0dd7fe2 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -228,7 +228,8 @@ private:
         // Only the value of a card with the value indicator can be quoted
         if (val.length() > 1 && val[0] == '\'' && this->card_.compare(8, 2, "= ") == 0) {
             // Two successive single quotes within a string represent a single quote
-            return boost::algorithm::trim_copy(
+            // ( leading blanks belong to the string, trailing ones do not )
+            return boost::algorithm::trim_right_copy(
                 boost::algorithm::replace_all_copy(val.substr(1, val.length() - 2), "''", "'"));
         }
         else {
-- 
2.43.0


From e8a331c425fcfeb6c1e05dd457ec6e57665c0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:01 +0000
Subject: [PATCH 54/57] fix: report reads of a file stream that fail

read() gave back blanks and get() the byte 255 when the device could not
read the file or the file had become shorter.
---
 include/boost/astronomy/io/fits_stream.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 05d6bbf..8bda0f6 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -67,10 +67,14 @@ namespace boost {namespace astronomy {namespace io {
 
         /**
          * @brief Get the value at current position of file pointer as a character
+         * @throw file_reading_exception If the file cannot be read
         */
         unsigned char get() {
 
             unsigned char byte = static_cast<unsigned char>(this->file.get());
+            if (this->file.bad()) {
+                throw file_reading_exception("Cannot Read File");
+            }
             if (!this->file.eof()) { return byte; }
             return 0;
         }
@@ -107,7 +111,7 @@ namespace boost {namespace astronomy {namespace io {
         /**
          * @brief Reads num_bytes from the file from current position as a string
          * @param[in] num_bytes Amount of data to be read in bytes
-         * @throw file_reading_exception If the file has less than num_bytes left
+         * @throw file_reading_exception If the file has less than num_bytes left or they cannot be read
         */
         std::string read(std::size_t num_bytes) {
             if (num_bytes > remaining_bytes()) {
@@ -115,6 +119,9 @@ namespace boost {namespace astronomy {namespace io {
             }
             std::string data(num_bytes, ' ');
             this->file.read(&data[0], num_bytes);
+            if (static_cast<std::size_t>(this->file.gcount()) != num_bytes) {
+                throw file_reading_exception("Cannot Read File");
+            }
             return data;
         }
 
-- 
2.43.0


From 37304832c6b925092e787291a4712a44013f6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:39 +0000
Subject: [PATCH 55/57] fix: read and write the numbers of FITS files in the
 classic locale

With a global locale that has another decimal point or groups digits, cards
and ASCII tables were written with its separators, real numbers could not be
read and 1.234 was read as the integer 1234.
---
 .../astronomy/io/default_card_policy.hpp      |  4 +-
 .../io/string_conversion_utility.hpp          | 38 +++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 97d8d53..9cf85ad 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -259,6 +259,7 @@ private:
     template<typename T>
     static std::string to_text(T value, std::false_type) {
         std::stringstream value_stream;
+        value_stream.imbue(std::locale::classic());
         value_stream << value;
         return value_stream.str();
     }
@@ -271,12 +272,13 @@ private:
         std::string text;
         for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; ++digits) {
             std::stringstream value_stream;
+            value_stream.imbue(std::locale::classic());
             value_stream.precision(digits);
             value_stream << value;
             text = value_stream.str();
             T parsed;
             // Rounding to fewer digits may overflow
-            if (boost::conversion::try_lexical_convert(text, parsed) && parsed == value) { break; }
+            if (ascii_converter::parse_number(text, parsed) && parsed == value) { break; }
         }
         return text;
     }
diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index ca943fd..318765d 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -41,9 +41,9 @@ namespace boost{namespace astronomy{namespace io{
                     // FITS writes the exponent of a real number with E or D
                     std::string real_str = convert_str;
                     std::replace(real_str.begin(), real_str.end(), 'D', 'E');
-                    return boost::lexical_cast<T>(real_str);
+                    return from_text<T>(real_str, std::is_arithmetic<T>());
                 }
-                return boost::lexical_cast<T>(convert_str);
+                return from_text<T>(convert_str, std::is_arithmetic<T>());
             }
             catch (bad_lexical_cast&) {
                 throw invalid_cast("Cannot convert from String to the required Type");
@@ -64,6 +64,7 @@ namespace boost{namespace astronomy{namespace io{
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
                         std::stringstream conversion_stream;
+                        conversion_stream.imbue(std::locale::classic());
                         conversion_stream << value;
                         return conversion_stream.str();
                     });
@@ -79,11 +80,29 @@ namespace boost{namespace astronomy{namespace io{
             for (int digits = min_digits; digits <= std::numeric_limits<T>::max_digits10; ++digits) {
                 text = to_text(value, digits);
                 T parsed;
-                if (boost::conversion::try_lexical_convert(text, parsed) && parsed == value) { break; }
+                if (parse_number(text, parsed) && parsed == value) { break; }
             }
             return text;
         }
 
+        /**
+         * @brief Parses a whole text as a number, in the same way whatever the locale of the program is
+         * @param[in] text Text to be parsed
+         * @param[out] value The number
+         * @return Returns false if the text is not a number of that type
+        */
+        template<typename T>
+        static bool parse_number(std::string const& text, T& value) {
+            std::istringstream conversion_stream(text);
+            conversion_stream.imbue(std::locale::classic());
+            conversion_stream.unsetf(std::ios::skipws);
+            if (conversion_stream >> value && conversion_stream.get() == std::char_traits<char>::eof()) { return true; }
+
+            // Infinity and NaN are not known to streams
+            return std::is_floating_point<T>::value && text.find_first_of("0123456789") == std::string::npos
+                && boost::conversion::try_lexical_convert(text, value);
+        }
+
         /**
          * @brief Shortens the text of a floating point value to a field by rounding it
          * @param[in] text Text of the value
@@ -111,9 +130,22 @@ namespace boost{namespace astronomy{namespace io{
         // Least number of significant digits kept of a floating point value
         enum { min_digits = 6 };
 
+        template<typename T>
+        static T from_text(std::string const& text, std::true_type) {
+            T value;
+            if (!parse_number(text, value)) { throw bad_lexical_cast(); }
+            return value;
+        }
+
+        template<typename T>
+        static T from_text(std::string const& text, std::false_type) {
+            return boost::lexical_cast<T>(text);
+        }
+
         template<typename T>
         static std::string to_text(T value, int digits) {
             std::stringstream conversion_stream;
+            conversion_stream.imbue(std::locale::classic());
             conversion_stream.precision(digits);
             conversion_stream << value;
             return conversion_stream.str();
-- 
2.43.0


From 15454fceaba441b1f326b203f50125170a4c0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:44 +0000
Subject: [PATCH 56/57] fix: report a negative number asked for as an unsigned
 type

A card or header value such as -5 was returned as 4294967291 (or
18446744073709551611) when it was read as an unsigned integer.
---
 include/boost/astronomy/io/string_conversion_utility.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 318765d..a75f89a 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -96,7 +96,10 @@ namespace boost{namespace astronomy{namespace io{
             std::istringstream conversion_stream(text);
             conversion_stream.imbue(std::locale::classic());
             conversion_stream.unsetf(std::ios::skipws);
-            if (conversion_stream >> value && conversion_stream.get() == std::char_traits<char>::eof()) { return true; }
+            if (conversion_stream >> value && conversion_stream.get() == std::char_traits<char>::eof()) {
+                // Streams take a negative number for an unsigned type modulo its range
+                return !std::is_unsigned<T>::value || text[0] != '-' || value == T(0);
+            }
 
             // Infinity and NaN are not known to streams
             return std::is_floating_point<T>::value && text.find_first_of("0123456789") == std::string::npos
-- 
2.43.0


From 289091197a25bedad9b8c713db8d6fc96db31a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:11 +0000
Subject: [PATCH 57/57] fix: report logical fields that are too short

Logicals were read from no bytes at all and arrays of them had the number
of elements the data happened to have, not the number asked for.
---
 include/boost/astronomy/io/binary_data_converter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index e841e5f..3d4b7c0 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -276,12 +276,14 @@ namespace boost{namespace astronomy{namespace io{
 
     template<>
     bool binary_data_converter::deserialize_to(const std::string& element, int) {
+        require_size(element, 1);
         return element[0] == 'T';
     }
     template<>
-    std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int) {
+    std::vector<bool> binary_data_converter::deserialize_to(const std::string& elements,int num_elements) {
+        require_size(elements, num_elements);
         std::vector<bool> values;
-        for (auto element : elements) {
+        for (auto element : elements.substr(0, num_elements)) {
             values.emplace_back(element == 'T');
         }
         return values;
-- 
2.43.0

