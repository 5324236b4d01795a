From b76c9610d5d72ea931ba9e64eada55eeb9dc5286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 01/42] fix: correct the Latin-3 code page tables (entries
 behind unassigned positions were shifted)

---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..e2c6c3e 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From 98886ddba95d18c7fc2eb9e8c42aee7ad77b1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 02/42] fix: encode code page characters above 255 natively (16
 bit range check was done with bit count 2)

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index e2c6c3e..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From 4283af328a4e308f3a26084e2c5f7852e77f311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 03/42] fix: UTF-16 high surrogate followed by a unit below
 0xDC00 is not a surrogate pair

---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..f4bc940 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -128,7 +128,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From 2e7e8d774972e12152b32a291131e3b2226942fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 04/42] fix: raw copy of a UTF-16 surrogate pair copied the
 high surrogate only

---
 include/textwolf/charset_utf16.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index f4bc940..64f9801 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -49,10 +49,10 @@ public:
 		UnitSize=2					//< size of basic data type unit used for encoding
 	};
 
-public:
-	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
+private:
+	/// \brief Fetch the bytes of the first 16-bit unit of the current character
 	template <class Iterator>
-	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
+	static inline void fetchunit( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
 		if (bufpos<2)
 		{
@@ -68,6 +68,19 @@ public:
 		}
 	}
 
+public:
+	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
+	template <class Iterator>
+	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
+	{
+		unsigned int bufsize = size( buf, bufpos, itr);
+		for (;bufpos < bufsize; ++bufpos)
+		{
+			buf[ bufpos] = *itr;
+			++itr;
+		}
+	}
+
 	/// \brief Get the size of the current character in bytes (variable length encoding)
 	/// \param [in] buf buffer for the character data
 	/// \param [in,out] bufpos position in 'buf'
@@ -75,7 +88,7 @@ public:
 	template <class Iterator>
 	static inline unsigned int size( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		fetchbytes( buf, bufpos, itr);
+		fetchunit( buf, bufpos, itr);
 
 		UChar rt = (unsigned char)buf[ MSB];
 		if ((rt - 0xD8) > 0x03)
-- 
2.43.0


From b4813078e32b7d86571adf39dfc1e65ac46ef6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 05/42] fix: character references that are not valid are passed
 through unchanged (hexadecimal mark was lost, semicolon doubled)

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..acff82a 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -581,6 +581,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
@@ -642,7 +643,6 @@ private:
 			{
 				if (tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From f561c20e6202f39c53ea3ee5ee3f30a23474014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 06/42] fix: endless loop at the end of text inside of
 comments, processing instructions, CDATA sections and DOCTYPE subsets

---
 include/textwolf/xmlscanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index acff82a..a988676 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -85,6 +85,7 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
+			if (inputchr == EndOfText) continue;
 			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
-- 
2.43.0


From 0d39fca3a23e7b65779d5b180343870805dfdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 07/42] fix: question marks inside of processing instructions
 reported as error

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a988676..fcc0aca 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -312,7 +312,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From 6778137eb5ae809ee0a04765c211a65c5dc07c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 08/42] fix: CDATA section ending with ']]]>' not recognized as
 terminated

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index fcc0aca..f8c1142 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -354,7 +354,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From 6178db13b54d08c4f98a7461220c046c14fb5615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 09/42] fix: copy of the XML scanner lost the token parser
 state and the output character set

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index f8c1142..7ac6a99 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1018,11 +1018,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From e81215ccdd0b151acef2ce8895800c7f6078590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 10/42] fix: iterator element error() returned the token buffer
 instead of the error message

---
 include/textwolf/xmlscanner.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 7ac6a99..0504b7d 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -1260,11 +1261,26 @@ public:
 		{
 			if (input != 0)
 			{
-				element.m_type = input->nextItem(mask);
+				fetch( mask);
+			}
+			return *this;
+		}
+
+		/// \brief Fetch the next element from the scanner
+		/// \param [in] mask element types that should be printed to the output buffer
+		void fetch( unsigned short mask=0xFFFF)
+		{
+			element.m_type = input->nextItem(mask);
+			if (element.m_type == ErrorOccurred)
+			{
+				element.m_content = getErrorString( input->error);
+				element.m_size = std::strlen( element.m_content);
+			}
+			else
+			{
 				element.m_content = input->getItemPtr();
 				element.m_size = input->getItemSize();
 			}
-			return *this;
 		}
 
 		/// \brief Compare iterator with another
@@ -1300,9 +1316,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch();
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From 042dc6a5223ecb2d9b0438025df45f71fb26fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 11/42] fix: entities defined by the caller were never found
 (names were compared by address)

---
 include/textwolf/xmlscanner.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 0504b7d..2419e35 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -170,6 +170,13 @@ public:
 class XMLScannerBase
 {
 public:
+	/// \class EntityNameLess
+	/// \brief Order of entity names by content and not by address
+	struct EntityNameLess
+	{
+		bool operator()( const char* n1, const char* n2) const	{return std::strcmp( n1, n2) < 0;}
+	};
+
 	/// \enum ElementType
 	/// \brief Enumeration of XML element types returned by an XML scanner
 	enum ElementType
@@ -486,7 +493,7 @@ public:
 public:
 	typedef TextScanner<InputIterator,InputCharSet_> InputReader;
 	typedef XMLScanner<InputIterator,InputCharSet_,OutputCharSet_,OutputBuffer_> ThisXMLScanner;
-	typedef std::map<const char*,UChar> EntityMap;
+	typedef std::map<const char*,UChar,EntityNameLess> EntityMap;
 	typedef OutputBuffer_ OutputBuffer;
 
 private:
-- 
2.43.0


From 543495cc58678d479d8b1b837517a1ffe518e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 12/42] fix: default constructed, assigned and exhausted stream
 iterators (uninitialized members, double free, position not advancing)

---
 include/textwolf/istreamiterator.hpp | 32 +++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..fed51ae 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -118,8 +119,28 @@ public:
 	IStreamIterator( const IStreamIterator& o)
 		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
 	{
-		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (!m_buf && m_bufsize) throw std::bad_alloc();
+		if (o.m_readsize) std::memcpy( m_buf, o.m_buf, o.m_readsize);
+	}
+
+	/// \brief Assignment operator
+	/// \param [in] o iterator to assign
+	IStreamIterator& operator=( const IStreamIterator& o)
+	{
+		if (this != &o)
+		{
+			char* buf_ = (char*)std::malloc( o.m_bufsize);
+			if (!buf_ && o.m_bufsize) throw std::bad_alloc();
+			if (o.m_readsize) std::memcpy( buf_, o.m_buf, o.m_readsize);
+			std::free( m_buf);
+			m_input = o.m_input;
+			m_buf = buf_;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
 	}
 
 	/// \brief Element access
@@ -134,6 +155,7 @@ public:
 	{
 		if (m_readpos+1 >= m_readsize)
 		{
+			if (!m_readsize) ++m_abspos; //... behind the end of input
 			fillbuf();
 		}
 		else
@@ -157,9 +179,9 @@ private:
 	bool fillbuf()
 	{
 		m_abspos += m_readsize;
-		m_readsize = m_input->read( m_buf, m_bufsize);
+		m_readsize = m_input?m_input->read( m_buf, m_bufsize):0;
 		m_readpos = 0;
-		if (m_input->errorcode()) throw exception( FileReadError);
+		if (m_input && m_input->errorcode()) throw exception( FileReadError);
 		return true;
 	}
 
-- 
2.43.0


From 14bc4f11119693151b95188258ca4a0d5900e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 13/42] fix: copy of a static buffer leaked its memory or (when
 assigned) shared it with its origin

---
 include/textwolf/staticbuffer.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..0166d40 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
@@ -53,6 +53,24 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* ar_ = (char*)std::malloc( o.m_size * sizeof(char));
+			if (!ar_) throw std::bad_alloc();
+			std::memcpy( ar_, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free( m_ar);
+			m_ar = ar_;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From aa7a69e93003c23477e470471d02eb5e6c52f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 14/42] fix: static buffer element access one behind the
 content was allowed (read behind the memory of a full buffer)

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 0166d40..dc65290 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -141,7 +141,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -150,7 +150,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From a21f5f53e86352661f6af5c3dc0d14aa9c2d6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 15/42] fix: assigned tag stack shared its memory with its
 origin (double free)

---
 include/textwolf/xmltagstack.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..ea837d2 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -44,6 +44,22 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment operator
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_size);
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = xx;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From ec12c07b8643e016cbaa3ece78f4fa68f0bcddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 16/42] fix: exception names shifted behind NotAllowedOperation
 (missing comma)

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From 1bf0559ea69061471bcdbe7bfac4035dbf332794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 17/42] fix: carriage return in content printed unescaped (read
 back as line feed)

---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..050792d 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From 779d2ef66995dc7cfacee2652f52b4dd8483f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 18/42] fix: printing a tag after an attribute name without
 value wrote a broken document

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 050792d..22203c3 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -241,6 +241,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "expected value after attribute name";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
-- 
2.43.0


From 84a8cf195d4e22a7377c90a21c5c4e52bd104c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 19/42] fix: DOCTYPE printed inside of an element

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 22203c3..1827a7d 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -194,6 +194,11 @@ public:
 	/// \return true on success, false if failed (check lasterror())
 	bool printDoctype( const char* rootid, const char* publicid, const char* systemid, BufferType& buf)
 	{
+		if (m_state == TagElement || m_state == TagAttribute || !m_tagstack.empty())
+		{
+			m_lasterror = "printing DOCTYPE inside of an element";
+			return false;
+		}
 		if (rootid)
 		{
 			if (publicid)
-- 
2.43.0


From 3b60d6ef7fff13b9ea8928b4fdddf2de9ced0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 20/42] fix: copy of the header parser lost the encoding and
 the error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From 6d0a3b8dcec2ea9a7d7148b2454742608ebbd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 21/42] fix: character reference without digits was replaced by
 a null character

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 2419e35..80e0608 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -650,7 +650,7 @@ private:
 			ch = m_src.ascii();
 			if (ch == ';')
 			{
-				if (tokstate.value > 0xFFFFFFFF)
+				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
 				{
 					fallbackEntity();
 					return true;
-- 
2.43.0


From e19fa34c5c09ed7703a12d55b1c09343b3707382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 22/42] fix: position one behind the end of the document after
 its last element

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 80e0608..8e93bdb 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1178,7 +1178,7 @@ public:
 			if (sd->next[ ch] != -1)
 			{
 				state = (STMState)sd->next[ ch];
-				m_src.skip();
+				if (ch != EndOfText) m_src.skip();
 			}
 			else if (sd->fallbackState != -1)
 			{
-- 
2.43.0


From 18c1145c5a0605799be881080880f8aa53a6e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 23/42] fix: XML header printed as garbage with an application
 character set of more than one byte per character

---
 include/textwolf/xmlprinter.hpp | 38 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 1827a7d..d703ef3 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -48,6 +48,14 @@ public:
 		}
 	}
 
+	/// \brief Prints a null terminated ASCII string (independent of the character set encoding of the application)
+	/// \param [in] src string to print
+	/// \param [out] buf buffer to append result to
+	void printAscii( const char* src, BufferType& buf) const
+	{
+		for (; *src; ++src) m_output.print( (UChar)(unsigned char)*src, buf);
+	}
+
 	/// \brief print a character substitute or the character itself
 	/// \param [in] ch character to print
 	/// \param [in,out] buf buffer to print to
@@ -170,17 +178,17 @@ public:
 			return false;
 		}
 		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
-		printToBuffer( enc.c_str(), enc.size(), buf);
+		printAscii( "<?xml version=\"1.0\" encoding=\"", buf);
+		printAscii( enc.c_str(), buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
-			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
+			printAscii( "\" standalone=\"", buf);
+			printAscii( standalone, buf);
+			printAscii( "\"?>\n", buf);
 		}
 		else
 		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printAscii( "\"?>\n", buf);
 		}
 		m_state = Content;
 		return true;
@@ -208,27 +216,27 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAscii( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
+				printAscii( " PUBLIC \"", buf);
 				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
+				printAscii( "\" \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printAscii( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAscii( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
+				printAscii( " SYSTEM \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printAscii( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
+				printAscii( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printAscii( ">", buf);
 			}
 		}
 		return true;
-- 
2.43.0


From 9c2b0a24cb3b9a449070b4bebaacab9f0d59f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 24/42] fix: DOCTYPE printed before the XML header

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index d703ef3..10cf736 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -209,6 +209,11 @@ public:
 		}
 		if (rootid)
 		{
+			if (m_state == Init)
+			{
+				m_lasterror = "printing DOCTYPE before the xml header";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
-- 
2.43.0


From 7702bc1a11dba72fa8f96ea43f274a68f8acf7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 25/42] fix: copy of an XMLPathSelect takes over the current
 scope

---
 include/textwolf/xmlpathselect.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..0323a0f 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -64,7 +64,7 @@ private:
 		unsigned int scope_iter;		//< position of currently visited token in the active scope
 
 		/// \brief Constructor
-		Context()				:type(XMLScannerBase::Content),key(0),keysize(0) {}
+		Context()				:type(XMLScannerBase::Content),key(0),keysize(0),scope_iter(0) {}
 
 		/// \brief Initialization
 		/// \param [in] p_type type of the current element processed
@@ -333,7 +333,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From be5dee284e3e7e262880e1011c924f078e83981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:10 +0000
Subject: [PATCH 26/42] fix: close the scope of a close tag once and not with
 every copy of the result iterator

---
 include/textwolf/xmlpathselect.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 0323a0f..f8c460f 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -116,6 +116,8 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		//last step of a close tag whose results were not fetched until the end:
+		closeProcessElement();
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -146,6 +148,8 @@ private:
 				follows.resize( context.scope.range.followidx);
 				tokens.resize( context.scope.range.tokenidx_to);
 			}
+			//the scope is closed only once
+			context.type = XMLScannerBase::None;
 		}
 	}
 
@@ -276,6 +280,7 @@ private:
 					{
 						context.key = 0;
 						context.keysize = 0;
+						closeProcessElement();
 						return 0; //end of all candidates
 					}
 				}
@@ -285,6 +290,7 @@ private:
 		{
 			context.key = 0;
 			context.keysize = 0;
+			closeProcessElement();
 		}
 		return type;
 	}
@@ -401,11 +407,6 @@ public:
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
 			:element(0),input(0) {}
-- 
2.43.0


From afa683cf915055103ef06bd638669efa058cedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 27/42] fix: count elements selected with an index range once

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index f8c460f..9015cc9 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -210,7 +210,7 @@ private:
 						}
 					}
 				}
-				else
+				else if (tk->core.typeidx == 0)
 				{
 					produce( tokenidx, st);
 					tk = &tokens[ tokenidx];
-- 
2.43.0


From 10040667b35d82c9b8757d7ae979d03ff520130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:19 +0000
Subject: [PATCH 28/42] fix: intersect both bounds of two index ranges

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..d4de00a 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -623,13 +623,16 @@ public:
 			{
 				range = Range( p_start, p_end);
 			}
-			else if (p_end < range.end)
-			{
-				range.end = p_end;
-			}
-			else if (p_start > range.start)
+			else
 			{
-				range.start = p_start;
+				if (p_end < range.end)
+				{
+					range.end = p_end;
+				}
+				if (p_start > range.start)
+				{
+					range.start = p_start;
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From d0b969a459f2f8a592ddf42b9bb8a8351f04e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 29/42] fix: compare the whole attribute value in attribute
 conditions

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index d4de00a..fd1cc4f 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -564,6 +564,16 @@ public:
 		Mask pushOpMask;		//< mask for firing element actions
 		Mask printOpMask;		//< mask for printing element actions
 
+		///\class IsAttributeValueCharMap
+		///\brief Defines the set of characters of an attribute value in an attribute condition
+		struct IsAttributeValueCharMap :public XMLScannerBase::IsContentCharMap
+		{
+			IsAttributeValueCharMap()
+			{
+				(*this)(Lt,true);
+			}
+		};
+
 	private:
 		///\brief Define an output operation for a certain element type in this state
 		///\param [in] op XML operation type of this output
@@ -581,7 +591,8 @@ public:
 		///\return *this
 		PathElement& doSelect( Operation op, const char* value)
 		{
-			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const IsAttributeValueCharMap isAttributeValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -590,7 +601,7 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					if (!StaticXMLScanner::parseStaticToken( (op == ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isAttributeValueCharMap:isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-- 
2.43.0


From ca9fb830c8c5fd2b9b71078064dc41510de7fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 30/42] fix: parse numeric entities in static tokens

---
 include/textwolf/xmlscanner.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 8e93bdb..57bdd65 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -831,7 +831,18 @@ public:
 				}
 				else if (ch == Amp)
 				{
-					pc = parseStaticNumericEntityValue( ir);
+					InputReader entity( ir);
+					entity.skip();
+					pc = parseStaticNumericEntityValue( entity);
+					if (pc)
+					{
+						ir = entity;
+					}
+					else
+					{
+						//not a numeric entity, taken as is
+						pc = ir.chr();
+					}
 				}
 				else
 				{
-- 
2.43.0


From f6ede7615668c9da3f8c0f654a6a613a35494ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 31/42] fix: do not truncate long names and values in path
 expressions

---
 include/textwolf/xmlpathautomaton.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index fd1cc4f..896a0e1 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -597,15 +597,14 @@ public:
 			{
 				if (value)
 				{
-					char buf[ 1024];
-					StaticBuffer pb( buf, sizeof(buf));
+					std::string pb;
 					char* itr = const_cast<char*>(value);
-					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
+					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
 					if (!StaticXMLScanner::parseStaticToken( (op == ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isAttributeValueCharMap:isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
+					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.c_str(), value, follow);
 				}
 				else
 				{
-- 
2.43.0


From 810593a3a23d06e725d700102cffdb4e669ffe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 32/42] fix: accept characters beyond 255 in names of path
 expressions

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..6aef641 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -282,7 +282,7 @@ private:
 		if (src.control() == Undef || src.control() == Any)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			return (*src >= 128 || 0==std::strchr( opchr, *src));
 		}
 		return false;
 	}
-- 
2.43.0


From 6ecedfd5758197ed8fcd5163173d07c76d0f496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 33/42] fix: accept names with a dash in path expressions

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 6aef641..83451c5 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -279,7 +279,7 @@ private:
 
 	static bool isIdentifierChar( SrcScanner& src)
 	{
-		if (src.control() == Undef || src.control() == Any)
+		if (src.control() == Undef || src.control() == Any || src.control() == Dash)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
 			return (*src >= 128 || 0==std::strchr( opchr, *src));
-- 
2.43.0


From 6a0649d24237d94ea020e7b177dfd20ecd7e8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 34/42] fix: attribute selections in all descendants are not
 given up after content

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 9015cc9..e2764cd 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -238,7 +238,7 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (tk->core.mask.rejects( context.type) && !tk->core.follow)
 			{
 				//The token must not match anymore after encountering a reject item
 				tk->core.mask.reset();
-- 
2.43.0


From 483d828d69d914db42801494fa3aa09333aeefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 35/42] fix: reject path expressions ending with an attribute
 selector without name

---
 include/textwolf/xmlpathautomatonparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 83451c5..15854c6 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -208,6 +208,7 @@ public:
 					break;
 			}
 		}
+		if (state == SelectAttribute) return src.getPosition()+1;
 		expr.assignType( typeidx);
 		return 0;
 	}
-- 
2.43.0


From 9a19913c98dcd56b91664fda406e9fe47ff168c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 36/42] fix: terminate identifiers of path expressions with a
 null character in the character set of the automaton

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 15854c6..29d384d 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -302,6 +302,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
+			atmcharset->print( 0, idlist.back());
 			return idlist.back().c_str();
 		}
 		const char* parseValue( SrcScanner& src)
@@ -315,6 +316,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
+				atmcharset->print( 0, idlist.back());
 				return idlist.back().c_str();
 			}
 			else if (isIdentifierChar(src))
-- 
2.43.0


From 54961faa1395bb7ca956f5759610333b1b6dbc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 37/42] fix: the NUL character was encoded as character entity
 in ISO-8859 encodings (names of path expressions not terminated)

---
 include/textwolf/charset_isolatin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..ddc9331 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -77,7 +77,7 @@ struct IsoLatin :public IsoLatinCodePage
 	void print( UChar chr, Buffer_& buf) const
 	{
 		char chr_ = invcode( chr);
-		if (chr_ == 0)
+		if (chr_ == 0 && chr != 0)
 		{
 			char tb[ 32];
 			char* cc = tb;
-- 
2.43.0


From 10f1f85bbfaccbc70f492a8d91b962f36b6e0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 38/42] fix: check for '::' in path expressions was done on
 bytes instead of characters

---
 include/textwolf/xmlpathautomatonparse.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 29d384d..2bcb142 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,17 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		CStringIterator nsitr( esrc, esrcsize);
+		SrcScanner nssrc( m_srccharset, nsitr);
+		while (*nssrc)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
+			std::size_t xpos = nssrc.getPosition();
+			bool colon = (*nssrc == ':');
+			++nssrc;
+			if (colon && *nssrc == ':')
 			{
 				return xpos+1;
 			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
 		}
 
 		// Parse the expression:
-- 
2.43.0


From 87923eb2173693b22758f778c8a24f79ba0b75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 39/42] fix: memory leak of the stream iterator when its first
 read failed

---
 include/textwolf/istreamiterator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index fed51ae..d0faefc 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -111,7 +111,15 @@ public:
 		:m_input(input),m_buf((char*)std::malloc(bufsize)),m_bufsize(bufsize),m_readsize(0),m_readpos(0),m_abspos(0)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		fillbuf();
+		try
+		{
+			fillbuf();
+		}
+		catch (...)
+		{
+			std::free( m_buf);
+			throw;
+		}
 	}
 
 	/// \brief Copy constructor
-- 
2.43.0


From dfd1ac8450817ab1e942415001a257d6f2f47d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:58 +0000
Subject: [PATCH 40/42] fix: stream failure without error number was taken as
 end of the stream

---
 include/textwolf/istreamiterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index d0faefc..d424c69 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -68,13 +68,13 @@ public:
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno ? errno : EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno ? errno : EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From 708017e0ff1c6739fcb8aca1cf161a678b09d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:36 +0000
Subject: [PATCH 41/42] fix: path selection did not close the scope of the XML
 header

---
 include/textwolf/xmlpathselect.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index e2764cd..ea64713 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -110,6 +110,20 @@ private:
 		}
 	}
 
+	/// \brief Tells if an element opens a scope (the XML header is the scope of its attributes)
+	/// \param [in] type type of the element
+	static bool isOpenScope( XMLScannerBase::ElementType type)
+	{
+		return type == XMLScannerBase::OpenTag || type == XMLScannerBase::HeaderStart;
+	}
+
+	/// \brief Tells if an element closes the scope opened last
+	/// \param [in] type type of the element
+	static bool isCloseScope( XMLScannerBase::ElementType type)
+	{
+		return type == XMLScannerBase::CloseTag || type == XMLScannerBase::CloseTagIm || type == XMLScannerBase::HeaderEnd;
+	}
+
 	/// \brief Declares the currently processed element of the XMLScanner input. By calling fetch we get the output elements from it
 	/// \param [in] type type of the current element processed
 	/// \param [in] key current element processed
@@ -118,7 +132,7 @@ private:
 	{
 		//last step of a close tag whose results were not fetched until the end:
 		closeProcessElement();
-		if (context.type == XMLScannerBase::OpenTag)
+		if (isOpenScope( context.type))
 		{
 			//last step of open scope has to be done after all tokens were visited,
 			//e.g. with the next element initialization
@@ -127,19 +141,19 @@ private:
 		context.scope.range.tokenidx_to = tokens.size();
 		context.scope.range.followidx = follows.size();
 		context.init( type, key, keysize);
-		if (context.type == XMLScannerBase::OpenTag)
+		if (isOpenScope( context.type))
 		{
 			// first step of open scope saves the context context on stack
 			scopestk.push_back( context.scope);
 			context.scope.mask = context.scope.followMask;
-			context.scope.mask.match( XMLScannerBase::OpenTag);
+			context.scope.mask.match( context.type);
 			//... we reset the mask but ensure that this 'OpenTag' is processed for sure
 		}
 	}
 
 	void closeProcessElement()
 	{
-		if (context.type == XMLScannerBase::CloseTag || context.type == XMLScannerBase::CloseTagIm)
+		if (isCloseScope( context.type))
 		{
 			if (!scopestk.empty())
 			{
-- 
2.43.0


From 35b93e3f6f545de28c29d2caf79fc56959daf140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 42/42] fix: reason missing if the XML printer refused an
 attribute or a close tag

---
 include/textwolf/xmlprinter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 10cf736..d2628a9 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -301,6 +301,7 @@ public:
 			m_state = TagAttribute;
 			return true;
 		}
+		m_lasterror = (m_state == TagAttribute) ? "expected value after attribute name" : "printing attribute outside of an open tag";
 		return false;
 	}
 
@@ -334,6 +335,7 @@ public:
 
 		if (!m_tagstack.top( cltag, cltagsize) || !cltagsize)
 		{
+			m_lasterror = "printing close tag without open tag";
 			return false;
 		}
 		if (m_state == TagElement)
@@ -344,6 +346,7 @@ public:
 		}
 		else if (m_state != Content)
 		{
+			m_lasterror = "expected value after attribute name";
 			return false;
 		}
 		else
-- 
2.43.0

