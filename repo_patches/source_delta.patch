From 78006858517d16ec03217bd67a00a375a7a240d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 01/74] fix: appending an FSM which accepts an empty string
 lost the own final states of the left one

---
 pire/fsm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..00160be 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -485,7 +485,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	// If rhs accepts an empty string right away, our own final states remain final.
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From e0b5ff54af5f880cfc9feab70c3a21d8cc19dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 02/74] fix: complemented FSM kept letter classes, so
 transitions added to it later were lost or widened

---
 pire/fsm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 00160be..6aea318 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -564,6 +564,12 @@ Fsm& Fsm::Complement()
 	if (!Determine())
 		throw Error("Regexp pattern too complicated");
 	Minimize();
+
+	// Letter classes built by Determine() would not be valid for whatever gets added
+	// to this FSM afterwards, so return back to plain letters.
+	Unsparse();
+	letters = LettersTbl(LettersEquality(m_transitions));
+
 	Resize(Size() + 1);
 	for (size_t i = 0; i < Size(); ++i)
 		if (!IsFinal(i))
-- 
2.43.0


From 69e6ea24447f0977179ffcb04ffdfee95b4f594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 03/74] fix: concatenating, uniting or importing an FSM with
 itself read and wrote a table while resizing it

---
 pire/fsm.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 6aea318..123891b 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -381,6 +381,11 @@ void Fsm::Import(const Fsm& rhs)
 //     PIRE_IFDEBUG(LOG_DEBUG("fsm") << "=== Left-hand side ===\n" << *this);
 //     PIRE_IFDEBUG(LOG_DEBUG("fsm") << "=== Right-hand side ===\n" << rhs);
 
+	if (&rhs == this) {
+		Import(Fsm(rhs));
+		return;
+	}
+
 	size_t oldsize = Resize(Size() + rhs.Size());
 
 	for (auto&& outer : m_transitions) {
@@ -469,6 +474,9 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this += Fsm(rhs);
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
@@ -500,6 +508,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this |= Fsm(rhs);
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From ec48c8a52f53c18514c282129fdda0b4d224ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 04/74] fix: suffix closure accepted words which are not
 suffixes of any accepted word

---
 pire/fsm.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 123891b..b92ae79 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -611,9 +611,15 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	// Only start from the middle of words which can really be completed, and use a separate
+	// initial state, since the old one can be visited in the middle of a word as well.
+	TSet<size_t> dead = DeadStates();
+	size_t oldsize = Resize(Size() + 1);
+	for (size_t i = 0; i < oldsize; ++i)
+		if (dead.find(i) == dead.end())
+			Connect(oldsize, i);
+	initial = oldsize;
+	determined = false;
 	ClearHints();
 }
 	
-- 
2.43.0


From ebddf7cca1967058359af2ce5ebd02ba9ae7b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 05/74] fix: swapping two FSMs did not swap the flag telling
 whether their letter classes make sense

---
 pire/fsm.cpp            | 3 +++
 pire/half_final_fsm.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index b92ae79..b10e9dd 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -256,6 +256,7 @@ void Fsm::Swap(Fsm& fsm)
 	DoSwap(initial, fsm.initial);
 	DoSwap(m_final, fsm.m_final);
 	DoSwap(letters, fsm.letters);
+	DoSwap(m_sparsed, fsm.m_sparsed);
 	DoSwap(determined, fsm.determined);
 	DoSwap(outputs, fsm.outputs);
 	DoSwap(tags, fsm.tags);
@@ -628,6 +629,7 @@ Fsm& Fsm::Reverse()
 	Fsm out;
 	out.Resize(Size() + 1);
 	out.letters = Letters();
+	out.m_sparsed = m_sparsed;
 
 	// Invert transitions
 	for (size_t from = 0; from < Size(); ++from)
@@ -944,6 +946,7 @@ public:
 		mNewFsm.initial = 0;
 		mNewFsm.determined = true;
 		mNewFsm.letters = Letters();
+		mNewFsm.m_sparsed = mFsm.m_sparsed;
 		mNewFsm.m_final.clear();
 		for (size_t ns = 0; ns < states.size(); ++ns) {
 			PIRE_IFDEBUG(Cdbg << "State " << ns << " = [" << Join(states[ns].begin(), states[ns].end(), ", ") << "]" << Endl);
diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e45d03b..aa1f05a 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -274,6 +274,7 @@ namespace Pire {
 				mNewFsm.SetInitial(0);
 				mNewFsm.SetIsDetermined(true);
 				mNewFsm.letters = Letters();
+				mNewFsm.m_sparsed = true;
 				mNewFsm.ClearFinal();
 				for (size_t i = 0; i < newStates.size(); i++) {
 					newStates[i].CopyData(mNewFsm, i);
-- 
2.43.0


From 83f7ccc323f3a4c95a8dbf76de84e1a955b09c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 06/74] fix: characters U+F000..U+F0FF were taken for escaped
 ones, escapes of non-ASCII characters matched something else

The flag marking escaped characters lay inside the private use area, so that U+F064 acted as \d, U+F0FF as
the end of the pattern, and an escaped U+00FF truncated the pattern.
---
 pire/re_lexer.cpp | 17 +++++++++++------
 pire/re_lexer.h   |  7 ++++---
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 33acf42..8fd123f 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -78,6 +78,12 @@ void Lexer::UngetChar(wchar32 c)
 }
 
 namespace {
+	// Checks whether given character is an escaped one of the listed
+	bool IsEscaped(wchar32 c, const char* controls)
+	{
+		return (c & ControlMask) == Control && (c & ~ControlMask) < 0x80 && strchr(controls, c & ~ControlMask) != 0;
+	}
+
 	class CompareFeaturesByPriority: public ybinary_function<const Feature::Ptr&, const Feature::Ptr&, bool> {
 	public:
 		bool operator()(const Feature::Ptr& a, const Feature::Ptr& b) const
@@ -136,7 +142,7 @@ Term Lexer::DoLex()
 			return Term::BeginMark();
 		else if (ch == '$')
 			return Term::EndMark();
-		else if ((ch & ControlMask) == Control && strchr(controls, ch & ~ControlMask))
+		else if (IsEscaped(ch, controls))
 			return Term::Character(ch & ~ControlMask);
 		else
 			return Term::Character(ch);
@@ -193,10 +199,9 @@ void Lexer::Parenthesized(Fsm& fsm)
 
 wchar32 Feature::CorrectChar(wchar32 c, const char* controls)
 {
-	bool ctrl = (strchr(controls, c & 0xFF) != 0);
-	if ((c & ControlMask) == Control && ctrl)
+	if (IsEscaped(c, controls))
 		return c & ~ControlMask;
-	if (c <= 0xFF && ctrl)
+	if (IsEscaped(c | Control, controls))
 		return c | Control;
 	return c;
 }
@@ -267,10 +272,10 @@ namespace {
 				} else if (ch == (Control | '-')) {
 					cs.first.insert(Term::String(1, '-'));
 				}
-				else if ((ch & ControlMask) == Control && (strchr(controls2, ch & ~ControlMask) || strchr(controls, ch & ~ControlMask))) {
+				else if (IsEscaped(ch, controls2) || IsEscaped(ch, controls)) {
 					cs.first.insert(Term::String(1, ch & ~ControlMask));
 				}
-				else if ((ch & ControlMask) != Control || !strchr(controls, ch & ~ControlMask)) {
+				else if (!IsEscaped(ch, controls)) {
 					cs.first.insert(Term::String(1, (firstUnicode) ? unicodeSymbol : ch));
 				} else {
 					Error("Wrong character in range");
diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 6db4242..1734250 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -42,9 +42,10 @@ namespace Pire {
 namespace Consts {
 enum { Inf = -1 };
 
-static const wchar32 Control     = 0xF000;
-static const wchar32 ControlMask = 0xFF00;
-static const wchar32 End         = Control | 0xFF;
+// Escaped characters are marked with a bit lying outside of the Unicode range.
+static const wchar32 Control     = 0x80000000;
+static const wchar32 ControlMask = 0x80000000;
+static const wchar32 End         = Control | 0x7FFFFFFF;
 };
 
 using namespace Consts;
-- 
2.43.0


From 3e093f7b61ca515622f10d8c8c05eb6f5cafaaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 07/74] fix: a zero character inside of square brackets was
 taken for a special one

strchr() finds the terminating zero too, so [\0-a] did not form a range.
---
 pire/re_lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 8fd123f..70b1c26 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -201,7 +201,7 @@ wchar32 Feature::CorrectChar(wchar32 c, const char* controls)
 {
 	if (IsEscaped(c, controls))
 		return c & ~ControlMask;
-	if (IsEscaped(c | Control, controls))
+	if (c != 0 && IsEscaped(c | Control, controls))
 		return c | Control;
 	return c;
 }
-- 
2.43.0


From 93422c3ae0f9067f65973cd6214093f7b6a626e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 08/74] fix: a titlecase letter did not match itself in
 case-insensitive mode

---
 pire/re_lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 70b1c26..60b568a 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -333,11 +333,11 @@ namespace {
 				const CharSet& old = t.Value().As<Term::CharacterRange>().first;
 				CharSet altered;
 				for (auto&& i : old) {
+					altered.insert(i);
 					if (i.size() == 1) {
 						altered.insert(Term::String(1, to_upper(i[0])));
 						altered.insert(Term::String(1, to_lower(i[0])));
-					} else
-						altered.insert(i);
+					}
 				}
 				t = Term(t.Type(), Term::CharacterRange(altered, t.Value().As<Term::CharacterRange>().second));
 			}
-- 
2.43.0


From 8016c6f46d53182e8754d4bf4ed589686b1c0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 09/74] fix: reversed, overflowing and non-ASCII repetition
 counts were accepted

a{3,1} and a{99999999999} tried to build an enormous automaton, a{U+0663} repeated 1587 times.
---
 pire/re_lexer.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 60b568a..5521931 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -22,6 +22,7 @@
 
 
 #include <ctype.h>
+#include <limits>
 #include "stub/utf8.h"
 #include "stub/singleton.h"
 #include <stdexcept>
@@ -298,13 +299,7 @@ namespace {
 			if (ch == (Control | '{') || ch == (Control | '}'))
 				return Term::Character(ch & ~ControlMask);
 			ch = GetChar();
-			int lower = 0, upper = 0;
-
-			if (!is_digit(ch))
-				Error("Wrong repetition count");
-
-			for (; is_digit(ch); ch = GetChar())
-				lower = lower * 10 + (ch - '0');
+			int lower = ReadNumber(ch), upper = 0;
 			if (ch == '}')
 				return Term::Repetition(lower, lower);
 			else if (ch != ',')
@@ -313,15 +308,29 @@ namespace {
 			ch = GetChar();
 			if (ch == '}')
 				return Term::Repetition(lower, Inf);
-			else if (!is_digit(ch))
-				Error("Wrong repetition count");
-			for (; is_digit(ch); ch = GetChar())
-				upper = upper * 10 + (ch - '0');
+			upper = ReadNumber(ch);
 
-			if (ch != '}')
+			if (ch != '}' || upper < lower)
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
+
+	private:
+		/// Reads a decimal number starting with @p ch and leaves the character following it in @p ch
+		int ReadNumber(wchar32& ch)
+		{
+			if (ch < '0' || ch > '9')
+				Error("Wrong repetition count");
+
+			int ret = 0;
+			for (; ch >= '0' && ch <= '9'; ch = GetChar()) {
+				int digit = ch - '0';
+				if (ret > (std::numeric_limits<int>::max() - digit) / 10)
+					Error("Wrong repetition count");
+				ret = ret * 10 + digit;
+			}
+			return ret;
+		}
 	};
 
 	class CaseInsensitiveImpl: public Feature {
-- 
2.43.0


From ef4b3e38841dd556b114cb034477eadad90c1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 10/74] fix: importing another FSM dropped the letter classes,
 but left them marked as meaningful

---
 pire/fsm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index b10e9dd..6fa242f 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -431,6 +431,7 @@ void Fsm::Import(const Fsm& rhs)
 		tags.insert(ymake_pair(tag.first + oldsize, tag.second));
 
 	letters = LettersTbl(LettersEquality(m_transitions));
+	m_sparsed = false;
 }
 
 void Fsm::Connect(size_t from, size_t to, Char c /* = Epsilon */)
-- 
2.43.0


From f536a1e14ede4ce432940dafcce01b9e3f7116fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 11/74] fix: an FSM cleaned of dead ends was still considered
 determined

RemoveDeadEnds() leaves states without transitions on some letters, so
minimizing or compiling a determined FSM after it ran into an assertion
(or dereferenced the end of an empty set).
---
 pire/fsm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 6fa242f..6f01d5a 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -733,6 +733,10 @@ void Fsm::RemoveDeadEnds()
 			for (auto&& k : j)
 				k.second.erase(i);
 	}
+	// Some states have got no transitions on some letters, hence the FSM
+	// has to be determined again before being minimized or compiled.
+	if (!dead.empty())
+		determined = false;
 	ClearHints();
 
 	PIRE_IFDEBUG(Cdbg << "Result:" << Endl << *this << Endl);
-- 
2.43.0


From 931c7fa96afbe59c57bf10ced290d04af13b2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 12/74] fix: a half-final scanner matched where only a suffix
 of the text did

If everything may follow a match, but not everything may precede it (say,
an FSM with AppendAnything() only), the half-final scanner still looked
for a match starting at each character.
---
 pire/half_final_fsm.cpp | 35 +++++++++++++++++++++++++++++++++++
 pire/half_final_fsm.h   |  2 ++
 2 files changed, 37 insertions(+)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index aa1f05a..593ecb7 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -32,6 +32,41 @@ namespace Pire {
 				}
 			}
 		}
+		return AllowsAnyPrefix();
+	}
+
+	// A half-final scanner starts looking for a match anew at each character, which is only correct
+	// if prepending anything to an accepted string makes an accepted string as well.
+	// Supposes that each string starting with an accepted one is accepted, too.
+	bool HalfFinalFsm::AllowsAnyPrefix() const {
+		TSet<ypair<size_t, size_t>> seen;
+		TDeque<ypair<size_t, size_t>> queue;
+		for (const auto& let : fsm.Letters()) {
+			for (const auto& to : fsm.Destinations(fsm.Initial(), let.first)) {
+				if (seen.insert(ymake_pair(fsm.Initial(), to)).second) {
+					queue.push_back(ymake_pair(fsm.Initial(), to));
+				}
+			}
+		}
+		while (!queue.empty()) {
+			const auto states = queue.front();
+			queue.pop_front();
+			if (fsm.IsFinal(states.second)) {
+				continue;
+			}
+			if (fsm.IsFinal(states.first)) {
+				return false;
+			}
+			for (const auto& let : fsm.Letters()) {
+				for (const auto& first : fsm.Destinations(states.first, let.first)) {
+					for (const auto& second : fsm.Destinations(states.second, let.first)) {
+						if (seen.insert(ymake_pair(first, second)).second) {
+							queue.push_back(ymake_pair(first, second));
+						}
+					}
+				}
+			}
+		}
 		return true;
 	}
 
diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 83828f8..7a25859 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -34,6 +34,8 @@ namespace Pire {
 
 		bool AllowHalfFinals();
 
+		bool AllowsAnyPrefix() const;
+
 		void MakeHalfFinal();
 
 		void DisconnectFinals(bool allowIntersects);
-- 
2.43.0


From 6452d3208d77d14dbff8f98ce5c19d358deae164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 13/74] fix: transitions added to an unpacked FSM were lost
 when it was unpacked again

Unsparse() left the letter classes behind, so the next call (by
RemoveEpsilons(), say) overwrote what had been connected by hand since.
---
 pire/fsm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 6f01d5a..1b67a21 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -881,6 +881,10 @@ void Fsm::Sparse(bool needEpsilons /* = false */)
 
 void Fsm::Unsparse()
 {
+	// The letter classes do not describe transitions added after unpacking them
+	if (!m_sparsed)
+		return;
+
 	for (auto&& letter : letters)
 		for (auto&& i : m_transitions)
 			for (auto&& j : letter.second.second)
-- 
2.43.0


From c0cb8d8857c0b66e6f5cda8bc8ccab976d80489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 14/74] fix: a greedy counter of an expression matching nothing
 had no transitions

MakeGreedyCounter() removed all the dead states of the determined FSM as
its last step, leaving it without transitions; the non-relocatable
half-final scanner then crashed on the first character.
---
 pire/half_final_fsm.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 593ecb7..ceb46a8 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -145,7 +145,6 @@ namespace Pire {
 		if (simplify) {
 			fsm.Minimize();
 		}
-		fsm.RemoveDeadEnds();
 	}
 
 	namespace Impl {
-- 
2.43.0


From 5c3767da4194057d48da01d4ab4c6840cda3dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 15/74] fix: the shortest suffix ending before the begin mark
 was lost

When asked to go through the begin mark, ShortestSuffix() fed it to the
scanner even if a shorter suffix had already been found.
---
 pire/run.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..645740d 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -353,10 +353,10 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 	PIRE_IFDEBUG(Cdbg << "Initial state " << StDump(scanner, state) << Endl);
 
 	for (; rbegin != rend && !scanner.Final(state) && !scanner.Dead(state); --rbegin) {
-		scanner.Next(state, (unsigned char)*rbegin);
+		Step(scanner, state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From 10048c1d663ade9be401c03f715f32467750dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 16/74] fix: LongestPrefix() missed the bytes skipped by a
 shortcut at the end of the text

If the text ended right after a range skipped by a shortcut, the predicate
was not asked again, and the prefix found was too short.
---
 pire/scanners/multi.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..2097d3d 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -986,6 +986,11 @@ public:
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
 			head = skipEnd;
 			noShortcut = true;
+			// The skipped bytes count as well, even if there is nothing after them
+			if (pred(scanner, state, (const char*)head) == Stop) {
+				st = state;
+				return Stop;
+			}
 		}
 		
 		for (size_t* p = (size_t*) tail; p != end; ++p) {
-- 
2.43.0


From 99c762d998a8daf530cc5ae352a56ea29209f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 17/74] fix: let the glued state lookup table grow instead of
 overflowing

Gluing into more states than the fixed table has entries (possible with an
explicit maxSize) made the search return an index of -1, and the following
insertion write before the beginning of the table.
---
 pire/glue.h | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/pire/glue.h b/pire/glue.h
index 456c30a..b7a7164 100644
--- a/pire/glue.h
+++ b/pire/glue.h
@@ -51,10 +51,10 @@ private:
 // The key idea is to specify size which is a power of 2 in order to use >> and | instead of
 // divisions and remainders.
 // NB: it mimics limited std::map<> behaviour, hence stl-like method names and typedefs.
+// N is the initial size of the table, which grows as necessary.
 template <size_t N, class State>
 class GluedStateLookupTable {
 public:
-	static const size_t MaxSize = N;
 	typedef ypair<State, State> key_type;
 	typedef size_t mapped_type;
 	typedef ypair<key_type, mapped_type> value_type;
@@ -64,10 +64,12 @@ public:
 	GluedStateLookupTable()
 		: mMap(new value_type[N])
 		, mFilled(N, false)
+		, mSize(N)
+		, mCount(0)
 	{}
 	
 	const_iterator end() const {
-		return mMap.get() + MaxSize;
+		return mMap.get() + mSize;
 	}
 	// Note that in fact mMap is sparsed and traditional [begin,end)
 	// traversal is unavailable; hence no begin() method here.
@@ -80,8 +82,13 @@ public:
 	ypair<iterator, bool> insert(const value_type& v) {
 		size_t ind = Search(v.first);
 		if (!mFilled[ind]) {
+			if (mCount >= mSize - mSize / 4) {
+				Grow();
+				ind = Search(v.first);
+			}
 			mMap[ind] = v;
 			mFilled[ind] = true;
+			++mCount;
 			return ymake_pair(mMap.get() + ind, true);
 		} else
 			return ymake_pair(mMap.get() + ind, false);
@@ -89,13 +96,26 @@ public:
 
 private:
 	size_t Search(const key_type& st) const {
-		size_t startInd = (Hash(st) % N);
-		for (size_t ind = startInd; ind != (startInd + N - 1) % N; ind = (ind + 1) % N) {
-			if (!mFilled[ind] || mMap[ind].first == st) {
-				return ind;
+		// There always are free entries, see insert()
+		size_t ind = Hash(st) & (mSize - 1);
+		while (mFilled[ind] && !(mMap[ind].first == st))
+			ind = (ind + 1) & (mSize - 1);
+		return ind;
+	}
+
+	void Grow() {
+		std::unique_ptr<value_type[]> oldMap(new value_type[mSize * 2]);
+		TVector<bool> oldFilled(mSize * 2, false);
+		oldMap.swap(mMap);
+		oldFilled.swap(mFilled);
+		mSize *= 2;
+		for (size_t i = 0; i != oldFilled.size(); ++i) {
+			if (oldFilled[i]) {
+				size_t ind = Search(oldMap[i].first);
+				mMap[ind] = oldMap[i];
+				mFilled[ind] = true;
 			}
 		}
-		return -1;
 	}
 
 	static size_t Hash(const key_type& st) {
@@ -104,6 +124,8 @@ private:
 
 	std::unique_ptr<value_type[]> mMap;
 	TVector<bool> mFilled;
+	size_t mSize;
+	size_t mCount;
 
 	// Noncopyable
 	GluedStateLookupTable(const GluedStateLookupTable&);
-- 
2.43.0


From a93ef3e24f76441cbadaa3e06418347e40e89301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 18/74] fix: AlignedInput did not compile, nor did it count
 characters read one by one

The member rdbuf() of the dependent base class needs qualification;
underflow() fetched the next character without consuming it, so reading by
characters never advanced and the position used by Align() was wrong.
---
 pire/stub/saveload.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..85da25c 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -46,14 +46,13 @@ namespace Pire {
 			std::streamsize written() const { return m_written; }
 
 		protected:
-			typename Traits::int_type underflow()
+			typename Traits::int_type underflow() { return m_backend->sgetc(); }
+
+			typename Traits::int_type uflow()
 			{
-				typename Traits::int_type ret = m_backend->sgetc();
-				if (!Traits::eq_int_type(ret, Traits::eof())) {
-					m_ch = (Char) ret;
+				typename Traits::int_type ret = m_backend->sbumpc();
+				if (!Traits::eq_int_type(ret, Traits::eof()))
 					m_read += sizeof(Char);
-					this->setg(&m_ch, &m_ch, &m_ch+1);
-				}
 				return ret;
 			}
 
@@ -85,7 +84,6 @@ namespace Pire {
 			std::basic_streambuf<Char, Traits>* m_backend;
 			std::streamsize m_read;
 			std::streamsize m_written;
-			Char m_ch;
 		};
 
 		template<class Char, class Traits = std::char_traits<Char> >
@@ -95,7 +93,7 @@ namespace Pire {
 				: std::basic_istream<Char, Traits>(0)
 				, m_streambuf(backend->rdbuf())
 			{
-				rdbuf(&m_streambuf);
+				this->rdbuf(&m_streambuf);
 			}
 
 			void Align(size_t divisor = sizeof(void*))
-- 
2.43.0


From 96bd12a15b311e293bd019a63df1b5764f3aabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 19/74] fix: SlowCapturingScanner could not be assigned

A constant non-static member deleted its assignment operator.
---
 pire/extra/capture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 213ee44..e534796 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -179,7 +179,7 @@ public:
 		FinalFlag = 1,
 	};
 
-	const ui32 ActionsCapture = BeginCapture | EndCapture;
+	static const ui32 ActionsCapture = BeginCapture | EndCapture;
 
 	class SingleState {
 	public:
-- 
2.43.0


From 6eaef1e9816db90c01765777c6d8f793b1a87e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 20/74] fix: saving a scanner which was mapped to memory
 crashed

Its data was only looked for in the buffer owned by the scanner.
---
 pire/scanner_io.cpp   | 14 +++++++++++---
 pire/scanners/multi.h |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..9dfa0d2 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -43,8 +43,7 @@ void SimpleScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 	}
 }
 
@@ -77,10 +76,19 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
 
+		if (IsMmaped()) {
+			size_t positions = m.statesCount * m.lettersCount + 1;
+			size_t jumps = m_jumpPos[positions - 1];
+			Impl::AlignedSaveArray(s, m_jumpPos, positions);
+			Impl::AlignedSaveArray(s, m_jumps, jumps);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, jumps);
+			return;
+		}
+
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
 		for (auto&& i : m_vec) {
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 2097d3d..2364f8d 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -569,7 +569,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From afc299d8e34bfc4a1c4f892cc1f0ecce3e63f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 21/74] fix: copies of an empty SlowScanner and empty
 SlowCapturingScanners crashed when run

A copy of an empty scanner was taken for a mapped one having no tables;
an empty capturing one looked for transitions in its own (empty) table
instead of the shared one.
---
 pire/extra/capture.h | 3 +--
 pire/scanners/slow.h | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index e534796..a4bab7b 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -398,9 +398,8 @@ public:
 		} else {
 			size_t num = GetPosition(state, letter);
 			const auto& jumpVec = GetJumpsVec(num);
-			const auto& actionVec = GetActionsVec(num);
 			for (size_t i = 0; i < jumpVec.size(); ++i)
-				nextStates.emplace_back(jumpVec[i], actionVec[i]);
+				nextStates.emplace_back(jumpVec[i], GetActionsVec(num)[i]);
 		}
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..0f77f4c 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -235,7 +235,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
@@ -318,7 +318,7 @@ protected:
 
 	const TVector<unsigned int>& GetJumpsVec(size_t from) const
 	{
-		return m_vec[from];
+		return (*m_vecptr)[from];
 	}
 
 	size_t* GetJumpPos() const
-- 
2.43.0


From f3ffb1b2a292cc2dd417f2d6d3b12910a9ee0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 22/74] fix: an empty counting or capturing scanner was no
 longer empty after saving and loading

It is now saved with no regexps, which tells it apart; also do not write
uninitialized padding bytes.
---
 pire/scanner_io.cpp    | 10 ++++++++--
 pire/scanners/loaded.h |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 9dfa0d2..24868c6 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -186,8 +186,12 @@ void LoadedScanner::Save(yostream* s, ui32 type) const
 	Y_ASSERT(type == ScannerIOTypes::LoadedScanner || type == ScannerIOTypes::NoGlueLimitCountingScanner);
 	SavePodType(s, Header(type, sizeof(m)));
 	Impl::AlignSave(s, sizeof(Header));
-	Locals mc = m;
-	mc.initial -= reinterpret_cast<size_t>(m_jumps);
+	Locals mc;
+	memset(&mc, 0, sizeof(mc));
+	mc.statesCount = m.statesCount;
+	mc.lettersCount = m.lettersCount;
+	mc.regexpsCount = RegexpsCount(); // no regexps means an empty scanner
+	mc.initial = m.initial - reinterpret_cast<size_t>(m_jumps);
 	SavePodType(s, mc);
 	Impl::AlignSave(s, sizeof(mc));
 
@@ -219,6 +223,8 @@ void LoadedScanner::Load(yistream* s, ui32* type)
 	}
 	Impl::AlignedLoadArray(s, sc.m_tags, sc.m.statesCount);
 	sc.m.initial += reinterpret_cast<size_t>(sc.m_jumps);
+	if (!sc.m.regexpsCount)
+		sc.Alias(Null());
 	Swap(sc);
 }
 
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index cc91742..527ba1d 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -145,6 +145,8 @@ public:
 		Impl::MapPtr(s.m_tags, s.m.statesCount, p, size);
 
 		s.m.initial += reinterpret_cast<size_t>(s.m_jumps);
+		if (!s.m.regexpsCount)
+			s.Alias(Null());
 		Swap(s);
 
 		return (const void*) p;
-- 
2.43.0


From e9f11f8d69830db4893861c7e5f5670adc0851df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 23/74] fix: loading or mapping an empty or a second image to a
 slow scanner

Mapping an image of an empty scanner left the old contents; mapping any
image or loading an empty one made SlowCapturingScanner forget that its
images contain actions.
---
 pire/scanner_io.cpp  | 3 ++-
 pire/scanners/slow.h | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 24868c6..8f9c2e5 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -126,10 +126,11 @@ void SlowScanner::Load(yistream* s)
 	bool empty;
 	LoadPodType(s, empty);
 	Impl::AlignLoad(s, sizeof(empty));
-	sc.need_actions = need_actions;
 	if (empty) {
 		sc.Alias(Null());
+		sc.need_actions = need_actions;
 	} else {
+		sc.need_actions = need_actions;
 		sc.m_vec.resize(sc.m.lettersCount * sc.m.statesCount);
 		if (sc.need_actions)
 			sc.m_actionsvec.resize(sc.m.lettersCount * sc.m.statesCount);
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 0f77f4c..c5f0efb 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -173,7 +173,7 @@ public:
 	const void* Mmap(const void* ptr, size_t size)
 	{
 		Impl::CheckAlign(ptr);
-		SlowScanner s;
+		SlowScanner s(need_actions);
 		const size_t* p = reinterpret_cast<const size_t*>(ptr);
 
 		Impl::ValidateHeader(p, size, ScannerIOTypes::SlowScanner, sizeof(s.m));
@@ -185,9 +185,10 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(empty));
 		Impl::AlignPtr(p, size);
 		
-		if (empty)
+		if (empty) {
 			s.Alias(Null());
-		else {
+			s.need_actions = need_actions;
+		} else {
 			s.m_vecptr = 0;
 			Impl::MapPtr(s.m_letters, MaxChar, p, size);
 			Impl::MapPtr(s.m_finals, s.m.statesCount, p, size);
@@ -195,8 +196,8 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
+		Swap(s);
 		return (const void*) p;
 	}
 
-- 
2.43.0


From f97f24bf5322e3a5edc6713206b4691135e75628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 24/74] fix: NoGlueLimitCountingScanner kept parts of its old
 contents when loaded

Once an image of AdvancedCountingScanner was loaded, any other one was run
in the compatibility mode, too; and vice versa the old actions were kept.
---
 pire/extra/count.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..4d8391e 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1018,25 +1018,24 @@ void NoGlueLimitCountingScanner::Save(yostream* s) const {
 }
 
 void NoGlueLimitCountingScanner::Load(yistream* s) {
+	NoGlueLimitCountingScanner scanner;
 	ui32 type;
-	LoadedScanner::Load(s, &type);
+	scanner.LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		LoadPodType(s, actionsSize);
 
-		if (actionsSize == 0) {
-			ActionsBuffer.reset();
-			Actions = nullptr;
-		} else {
-			ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
-			ActionsBuffer[0] = actionsSize;
-			LoadPodArray(s, &ActionsBuffer[1], actionsSize - 1);
-			Actions = ActionsBuffer.get();
+		if (actionsSize != 0) {
+			scanner.ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
+			scanner.ActionsBuffer[0] = actionsSize;
+			LoadPodArray(s, &scanner.ActionsBuffer[1], actionsSize - 1);
+			scanner.Actions = scanner.ActionsBuffer.get();
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		scanner.AdvancedScannerCompatibilityMode = true;
 	}
+	Swap(scanner);
 }
 
 const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
-- 
2.43.0


From 90f6593e62a4a065e526aed919dec829187d67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 25/74] fix: mapping an image of an empty SimpleScanner left
 the old contents

---
 pire/scanners/simple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..ae502a4 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -144,10 +144,10 @@ public:
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
+			Impl::AdvancePtr(p, size, s.BufSize());
 		}
+
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
-- 
2.43.0


From 47c910f2b2d73dc4db4ec619ed2577e7e4b689b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 26/74] fix: a NoGlueLimitCountingScanner loaded from an image
 of AdvancedCountingScanner could not be glued or saved

Gluing misread its actions (all resets were lost), saving hit an assertion.
---
 pire/extra/count.cpp |  6 +++++-
 pire/extra/count.h   | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 4d8391e..47b5a67 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1007,7 +1007,11 @@ NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCou
 // Should Save(), Load() and Mmap() functions return stream/pointer in aligned state?
 // Now they don't because tests don't require it.
 void NoGlueLimitCountingScanner::Save(yostream* s) const {
-	Y_ASSERT(!AdvancedScannerCompatibilityMode);
+	if (AdvancedScannerCompatibilityMode) {
+		// Actions still are in the format of AdvancedCountingScanner
+		LoadedScanner::Save(s, ScannerIOTypes::LoadedScanner);
+		return;
+	}
 	LoadedScanner::Save(s, ScannerIOTypes::NoGlueLimitCountingScanner);
 	if (Actions) {
 		SavePodArray(s, Actions, *Actions);
diff --git a/pire/extra/count.h b/pire/extra/count.h
index 9dd9872..5a0c1fa 100644
--- a/pire/extra/count.h
+++ b/pire/extra/count.h
@@ -456,6 +456,17 @@ private:
 		if (!a) {
 			return;
 		}
+		if (AdvancedScannerCompatibilityMode) {
+			for (ActionIndex id = 0; id < RegexpsCount(); ++id) {
+				if (a & (1u << (MAX_RE_COUNT + id))) {
+					*output_resets++ = id + id_shift;
+				}
+				if (a & (1u << id)) {
+					*output_increments++ = id + id_shift;
+				}
+			}
+			return;
+		}
 		if (!Actions) {
 			if (a & ResetAction) {
 				*output_resets++ = id_shift;
-- 
2.43.0


From 04c9ebd926a1c9fa3c2498b18353ec573936cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 27/74] fix: loading a scanner from a truncated stream went
 unnoticed

Short reads were not checked, so the scanner got random contents.
---
 pire/stub/saveload.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index 85da25c..8d809d3 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -147,7 +147,8 @@ namespace Pire {
 	template<class T>
 	void LoadPodType(yistream* s, T& t)
 	{
-		s->read((char*) &t, sizeof(t));
+		if (!s->read((char*) &t, sizeof(t)))
+			throw Error("EOF reached while loading");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -164,7 +165,8 @@ namespace Pire {
 	template<class T>
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
-		s->read((char*) t, len * sizeof(*t));
+		if (!s->read((char*) t, len * sizeof(*t)))
+			throw Error("EOF reached while loading");
 	}
 };
 
-- 
2.43.0


From 61d63bd3d3c3174e55166457c2388428099c6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 28/74] fix: mapping a truncated image read past its end

Bytes skipped by alignment were not subtracted from the remaining size, and
the flag telling an empty scanner was read without checking there is one.
---
 pire/align.h           | 5 +++--
 pire/scanners/multi.h  | 6 +++---
 pire/scanners/simple.h | 6 +++---
 pire/scanners/slow.h   | 6 +++---
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..c5a92a7 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,10 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				size_t shift = (const char*) next - (const char*) p;
+				if (shift > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= shift;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 2364f8d..457f3fd 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,9 +260,9 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* emptyPtr;
+		Impl::MapPtr(emptyPtr, 1, p, size);
+		bool empty = *emptyPtr;
 		
 		if (empty)
 			s.Alias(Null());
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index ae502a4..5dc402a 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,9 +133,9 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* emptyPtr;
+		Impl::MapPtr(emptyPtr, 1, p, size);
+		bool empty = *emptyPtr;
 		
 		if (empty)
 			s.Alias(Null());
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index c5f0efb..19e8e1a 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,9 +181,9 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* emptyPtr;
+		Impl::MapPtr(emptyPtr, 1, p, size);
+		bool empty = *emptyPtr;
 		
 		if (empty) {
 			s.Alias(Null());
-- 
2.43.0


From 997184e1314a2bb2663fdf5e8b6865410de7e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 29/74] fix: mapping a truncated NoGlueLimitCountingScanner
 read past its end

The table of actions was not checked against the size of the image.
---
 pire/extra/count.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 47b5a67..cad47f7 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1048,7 +1048,10 @@ const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+		size -= reinterpret_cast<const char*>(p) - static_cast<const char*>(ptr);
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
+		if (size < sizeof(ActionIndex) || size / sizeof(ActionIndex) < *scanner.Actions)
+			throw Error("EOF reached while mapping Pire::NoGlueLimitCountingScanner");
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
 			Impl::AdvancePtr(p, size, sizeof(ActionIndex));
-- 
2.43.0


From a27b3c392deaf71625345d7f54f1bd1abec1517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 30/74] fix: CountingScanner and CapturingScanner loaded images
 of NoGlueLimitCountingScanner

Actions in those images are indexes rather than bit masks.
---
 pire/scanner_io.cpp    | 3 +++
 pire/scanners/loaded.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 8f9c2e5..a54a6f8 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -214,6 +214,9 @@ void LoadedScanner::Load(yistream* s, ui32* type)
 	}
 	LoadPodType(s, sc.m);
 	Impl::AlignLoad(s, sizeof(sc.m));
+	// Empty scanners have no actions and hence can be read anyway
+	if (!type && header.Type != ScannerIOTypes::LoadedScanner && sc.m.regexpsCount)
+		throw Error("Serialized regexp has another format");
 	sc.m_buffer = BufferType(new char[sc.BufSize()]);
 	sc.Markup(sc.m_buffer.get());
 	Impl::AlignedLoadArray(s, sc.m_letters, MaxChar);
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index 527ba1d..3de8717 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -135,6 +135,9 @@ public:
 		Locals* locals;
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
+		// Empty scanners have no actions and hence can be read anyway
+		if (!type && header.Type != ScannerIOTypes::LoadedScanner && s.m.regexpsCount)
+			throw Error("Serialized regexp has another format");
 
 		Impl::MapPtr(s.m_letters, MaxChar, p, size);
 		Impl::MapPtr(s.m_jumps, s.m.statesCount * s.m.lettersCount, p, size);
-- 
2.43.0


From bce7f26e1e89dd01739ed2526992555225251ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 31/74] fix: gluing empty counting scanners gave a non-empty
 one

As with other scanners, gluing with an empty one now yields the other one.
---
 pire/extra/count.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index cad47f7..a09400e 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -979,6 +979,10 @@ private:
 	
 CountingScanner CountingScanner::Glue(const CountingScanner& lhs, const CountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (lhs.Empty())
+		return rhs;
+	if (rhs.Empty())
+		return lhs;
 	if (lhs.RegexpsCount() + rhs.RegexpsCount() > MAX_RE_COUNT) {
 		return CountingScanner();
 	}
@@ -989,6 +993,10 @@ CountingScanner CountingScanner::Glue(const CountingScanner& lhs, const Counting
 
 AdvancedCountingScanner AdvancedCountingScanner::Glue(const AdvancedCountingScanner& lhs, const AdvancedCountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (lhs.Empty())
+		return rhs;
+	if (rhs.Empty())
+		return lhs;
 	if (lhs.RegexpsCount() + rhs.RegexpsCount() > MAX_RE_COUNT) {
 		return AdvancedCountingScanner();
 	}
@@ -999,6 +1007,10 @@ AdvancedCountingScanner AdvancedCountingScanner::Glue(const AdvancedCountingScan
 
 NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCountingScanner& lhs, const NoGlueLimitCountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (lhs.Empty())
+		return rhs;
+	if (rhs.Empty())
+		return lhs;
 	static constexpr size_t DefMaxSize = 250000;
 	Impl::NoGlueLimitCountingScannerGlueTask task(lhs, rhs);
 	return Impl::Determine(task, maxSize ? maxSize : DefMaxSize);
-- 
2.43.0


From 2ae91b5de2dad4b69d83fa9e393afd66b940e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 32/74] fix: bytes above 0x7F given to the lexer as plain chars
 were taken for control characters

Plain chars are sign extended when put to the input queue; 0xFF even was taken
for the end of the pattern and hence silently dropped. Codes outside of the
Unicode range cannot be told from control characters, and are refused.
---
 pire/re_lexer.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 1734250..baf5336 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -137,7 +137,8 @@ public:
 	template<class Iter> void Assign(Iter begin, Iter end)
 	{
 		m_input.clear();
-		std::copy(begin, end, std::back_inserter(m_input));
+		for (; begin != end; ++begin)
+			m_input.push_back(ToChar(*begin));
 	}
 
 	/// The main lexer function. Extracts and returns the next term in input sequence.
@@ -166,6 +167,15 @@ private:
 	wchar32 PeekChar();
 	void UngetChar(wchar32 c);
 
+	// Plain chars might be signed; anything outside of the Unicode range would be mistaken for a control character
+	static wchar32 ToChar(char c) { return static_cast<unsigned char>(c); }
+	template<class T> static wchar32 ToChar(T c)
+	{
+		if (static_cast<wchar32>(c) > 0x10FFFF)
+			throw Pire::Error("Wrong character in regexp");
+		return static_cast<wchar32>(c);
+	}
+
 	void Error(const char* msg) { throw Pire::Error(msg); }
 
 	void InstallDefaultFeatures();
-- 
2.43.0


From 39fb12c1799f9d8e99abf1ee05d4d6801f677381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 33/74] fix: hexadecimal codes were cut to 32 bits before being
 checked

So \x{100000041} was taken for \x{41}.
---
 pire/read_unicode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/read_unicode.cpp b/pire/read_unicode.cpp
index f29adae..2a43538 100644
--- a/pire/read_unicode.cpp
+++ b/pire/read_unicode.cpp
@@ -64,7 +64,7 @@ namespace Pire {
 	}
 
 	wchar32 UnicodeReader::HexToDec(const ystring &hexStr) {
-		wchar32 converted;
+		unsigned long converted;
 		try {
 			converted = std::stoul(hexStr, 0, 16);
 		} catch (std::out_of_range &) {
@@ -73,6 +73,6 @@ namespace Pire {
 		if (converted > MaxUnicode) {
 			Error("Pire::UnicodeReader::HexToDec(): hex number in \"\\x...\" sequence is too large");
 		}
-		return converted;
+		return static_cast<wchar32>(converted);
 	}
 }
-- 
2.43.0


From ade69982ece65a20b22685f6000734e4302b777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 34/74] fix: a lexer refused any pattern assigned after a
 malformed one

---
 pire/re_lexer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index baf5336..033cd7a 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -137,6 +137,7 @@ public:
 	template<class Iter> void Assign(Iter begin, Iter end)
 	{
 		m_input.clear();
+		m_errmsg.clear();
 		for (; begin != end; ++begin)
 			m_input.push_back(ToChar(*begin));
 	}
-- 
2.43.0


From e9881c41e116e47164988d2787316233401c90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 35/74] fix: the upper case of U+00B5 was not a character

So a case insensitive pattern with this character got a garbage alternative.
---
 pire/stub/unidata_h.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/stub/unidata_h.h b/pire/stub/unidata_h.h
index c8a8451..96ec049 100644
--- a/pire/stub/unidata_h.h
+++ b/pire/stub/unidata_h.h
@@ -378,6 +378,8 @@ wchar32 to_lower(wchar32 ch)
 }
 wchar32 to_upper(wchar32 ch)
 {
+	if (ch == 0xB5) // MICRO SIGN is too far from its capital, the difference does not fit the table
+		return 0x39C;
 	i32 i = wc_info(ch);
 	return (wchar32)(ch - ((i & TO_UPPER) ? (i >> SVAL_OFFSET) : 0));
 }
@@ -391,7 +393,7 @@ wchar32 to_title(wchar32 ch)
 		else if (wc_istype(ch, _(Ll_LOWER)))
 			ret--;
 	} else if (i & TO_UPPER) {
-		ret = (wchar32)(ret - (i >> SVAL_OFFSET));
+		ret = to_upper(ch);
 	}
 	return ret;
 }
-- 
2.43.0


From b5351e33ae5d4817a02cbfe12a874900201b9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 36/74] fix: CountingScanner went on counting every character
 once both of its copies were dead

---
 pire/extra/count.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index a09400e..dbc8ceb 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -805,6 +805,8 @@ CountingScanner::CountingScanner(const Fsm& re, const Fsm& sep)
 				PIRE_IFDEBUG(dbgout = ((sep_re.Tag(ns.first) & Matched) ? ", ++cur" : ", max <- cur"));
 				outputs = DeadFlag | (sep_re.Tag(ns.first) & Matched);
 				ns.first = ns.second;
+				if (dead.find(ns.first) != dead.end()) // the backup is dead too, start over
+					ns.first = *sep_re.Destinations(sep_re.Initial(), letter).begin();
 			}
 			if (sep_re.IsFinal(ns.first) || (sep_re.IsFinal(ns.second) && !(sep_re.Tag(ns.first) & Matched)))
 				ns.second = sep_re.Initial();
-- 
2.43.0


From a9a01eeca2db7f83076a614e20eaa173cfaa5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 37/74] fix: AdvancedCountingScanner counted nothing at all if
 its separator matches nothing

---
 pire/extra/count.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index dbc8ceb..c861f84 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -298,7 +298,14 @@ public:
 		: mFsm(fsm)
 		, mReInitial{reInitial}
 	{
-		mDeadStates = fsm.DeadStates();
+		// Matches are counted even if no separator can follow them
+		Fsm useful(fsm);
+		for (size_t state = 0; state < useful.Size(); ++state) {
+			if (useful.Tag(state) & CountingFsm::Matched) {
+				useful.SetFinal(state, true);
+			}
+		}
+		mDeadStates = useful.DeadStates();
 		for (auto&& letter : fsm.Letters()) {
 			if (InvalidCharRange(letter.second.second)) {
 				mInvalidLetters.insert(letter.first);
-- 
2.43.0


From 3acdb14d1afa4f5177ae21bc8490cbf731e0f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 38/74] fix: SlowCapturingScanner saw the begin mark only at
 the beginning of its first state

A begin mark is consumed by any state reachable from the initial one through
epsilon transitions, not just by state number zero: "b|^(a)" did not match
"a" at all, and "(^a)" matched it without a capture.
---
 pire/extra/capture.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index a4bab7b..a9655e9 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -533,21 +533,31 @@ public:
 
 	void Initialize(State& nlist) const
 	{
-		PriorityStates states;
+		// The begin mark may be consumed by any state reachable from the initial one through epsilons
+		State start;
 		SingleState init(GetStart());
+		PriorityStates states;
 		TVector<bool> used(GetSize());
-		NextAndGetToGroups(states, init, Translate(BeginMark), 0, used);
-		NextAndGetToGroups(states, 0, Translate(BeginMark), 0, used);
-		UpdateNList(nlist, states);
+		used[GetStart()] = true;
+		NextAndGetToGroups(states, init, Translate(Epsilon), 0, used);
+		states.Push(init, NoRepetition);
+		UpdateNList(start, states);
+		NextStep(start, nlist, Translate(BeginMark), 0);
 	}
 
 	Action NextTranslated(State& clist, Char letter) const
 	{
 		State nlist;
+		NextStep(clist, nlist, letter, clist.GetPos() + 1);
+		DoSwap(clist, nlist);
+		return 0;
+	}
+
+	void NextStep(const State& clist, State& nlist, Char letter, size_t strpos) const
+	{
 		if (clist.IsMatched())
 			nlist.AddMatch(clist.GetMatched());
-		nlist.SetPos(clist.GetPos() + 1);
-		size_t strpos = nlist.GetPos();
+		nlist.SetPos(strpos);
 		TVector<bool> used(GetSize());
 		size_t pos = 0;
 		while (pos < clist.GetSize()) {
@@ -556,8 +566,6 @@ public:
 			UpdateNList(nlist, states);
 			++pos;
 		}
-		DoSwap(clist, nlist);
-		return 0;
 	}
 
 	void TakeAction(State&, Action) const {}
-- 
2.43.0


From ad629c1b2763bab09b7642aebd6998da6bcf6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 39/74] fix: SlowCapturingScanner took a match that needs the
 end mark for a match of any text

"(a)$" captured "a" in "ab", and a better continuation was dropped in favour of
such a match. A capture that begins or ends at the end mark itself was lost or
had no end ("(a$)" on "a"). Now the end mark makes a step like any other letter
when the capture is asked for.
---
 pire/extra/capture.h | 73 ++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 46 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index a9655e9..6310aab 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -448,38 +448,28 @@ public:
 		}
 	}
 
-	bool Captured(const SingleState& st, bool& matched) const
+	/// The best of final states reachable through the end mark, or the state itself if it is final
+	bool Finish(const SingleState& st, size_t pos, SingleState& final) const
 	{
-		matched = false;
 		if (IsFinal(st.GetNum())) {
-			matched = true;
-			if (st.HasBegin())
-				return true;
-		}
-		TVector<Transition> nextStates;
-		NextStates(st, Translate(EndMark), nextStates);
-		for (const auto& trans : nextStates)
-		{
-			size_t state = trans.GetState();
-			if (IsFinal(state)) {
-				matched = true;
-				if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
-					return true;
-			} else { // After EndMark there can be Epsilon-transitions to the Final State
-				TVector<Transition> epsilonTrans;
-				SingleState newSt(state);
-				NextStates(newSt, Translate(Epsilon), epsilonTrans);
-				for (auto new_trans : epsilonTrans) {
-					size_t fin = new_trans.GetState();
-					if (IsFinal(fin)) {
-						matched = true;
-						if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
-							return true;
-					}
-				}
-			}
+			final = st;
+			return true;
 		}
-		return false;
+		PriorityStates states;
+		TVector<bool> used(GetSize());
+		NextAndGetToGroups(states, st, Translate(EndMark), pos, used);
+		State finish;
+		UpdateNList(finish, states);
+		if (finish.IsMatched())
+			final = finish.GetMatched();
+		return finish.IsMatched();
+	}
+
+	bool Captured(const SingleState& st, bool& matched) const
+	{
+		SingleState final;
+		matched = Finish(st, 0, final);
+		return matched && final.Captured();
 	}
 
 	bool Matched(const SingleState& st) const
@@ -491,29 +481,20 @@ public:
 
 	bool GetCapture(const State& st, SingleState& final) const
 	{
-		size_t pos = 0;
-		bool matched = false;
-		bool ans = false;
-		while (pos < st.GetSize() && !matched) {
-			ans = Captured(st.GetState(pos), matched);
-			++pos;
-		}
-		if (matched) {
-			final = st.GetState(pos - 1);
-			return ans;
-		} else {
-			if (st.IsMatched()) {
-				final = st.GetMatched();
-				return true;
-			}
-			return false;
+		for (size_t pos = 0; pos < st.GetSize(); ++pos)
+			if (Finish(st.GetState(pos), st.GetPos(), final))
+				return final.Captured();
+		if (st.IsMatched()) {
+			final = st.GetMatched();
+			return final.Captured();
 		}
+		return false;
 	}
 
 	bool PushState(State& nlist, const SingleState& state) const
 	{
 		nlist.PushState(state);
-		if (Matched(state)) {
+		if (IsFinal(state.GetNum())) {
 			nlist.AddMatch(state);
 			return true;
 		}
-- 
2.43.0


From a84e37193597ec858831892650e4a85700b7f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 40/74] fix: SlowCapturingScanner lost the order of preference
 behind an optional item

Leaving any greedy repetition was put behind everything else reachable at that
point, and leaving any non-greedy one before it, so "b*(a+)c" captured just the
last "a" of "aaac", "b?(a)" the last "a" of the text, and "^(.b*|(b??))" took the
second alternative. Now the states are ordered by a walk which chooses at every
state on its own; for that the feature marks the transitions leaving a repetition
at the states where they compete with going on.
---
 pire/extra/capture.cpp |  19 +++++--
 pire/extra/capture.h   | 117 ++++++++++++++---------------------------
 2 files changed, 54 insertions(+), 82 deletions(-)

diff --git a/pire/extra/capture.cpp b/pire/extra/capture.cpp
index 1c262d3..34abc91 100644
--- a/pire/extra/capture.cpp
+++ b/pire/extra/capture.cpp
@@ -34,6 +34,7 @@ namespace {
 			, Pos(pos)
 			, Level(0)
 			, StateRepetition(NoRepetition)
+			, Repetition(0)
 		{}
 		
 		bool Accepts(wchar32 c) const { return c == '(' || c == '+' || c == '*' || c == '?' || c == '{'; }
@@ -43,6 +44,7 @@ namespace {
 			if (!Accepts(c))
 				Error("How did we get here?!..");
 			if (c != '(') {
+				Repetition = c;
 				wchar32 next = PeekChar();
 				if (next == '?') {
 					StateRepetition = NonGreedyRepetition;
@@ -90,18 +92,27 @@ namespace {
 		size_t Pos;
 		size_t Level;
 		RepetitionTypes StateRepetition;
+		wchar32 Repetition;
 
 		void SetRepetitionMark(Fsm& fsm, bool greedy)
 		{
+			unsigned long mark = greedy ? SlowCapturingScanner::EndRepetition : SlowCapturingScanner::EndNonGreedyRepetition;
+
+			// Leaving the repetition has to be told from going on with it at the very state where both are possible:
+			// those are the initial one of (...)? and all which are connected to the final one of (...)* and (...)+
+			if (Repetition != '{')
+				for (size_t state = 0; state < fsm.Size(); ++state)
+					if (Repetition != '?' || state == fsm.Initial())
+						for (auto&& dest : fsm.Destinations(state, Epsilon))
+							if (fsm.IsFinal(dest))
+								fsm.SetOutput(state, dest, fsm.Output(state, dest) | mark);
+
 			fsm.Resize(fsm.Size() + 1);
 			fsm.ConnectFinal(fsm.Size() - 1);
 
 			for (size_t state = 0; state < fsm.Size() - 1; ++state)
 				if (fsm.IsFinal(state))
-					if (greedy)
-						fsm.SetOutput(state, fsm.Size() - 1, SlowCapturingScanner::EndRepetition);
-					else
-						fsm.SetOutput(state, fsm.Size() - 1, SlowCapturingScanner::EndNonGreedyRepetition);
+					fsm.SetOutput(state, fsm.Size() - 1, mark);
 			fsm.ClearFinal();
 			fsm.SetFinal(fsm.Size() - 1, true);
 			fsm.SetIsDetermined(false);
diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 6310aab..45350a3 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -33,8 +33,6 @@
 #include "../re_lexer.h"
 #include "../run.h"
 
-#include <array>
-
 namespace Pire {
 
 /**
@@ -336,43 +334,6 @@ public:
 		}
 	};
 
-	class PriorityStates {
-	private:
-		TVector<SingleState> m_nonGreedy;
-		TVector<SingleState> m_nothing;
-		TVector<SingleState> m_greedy;
-
-	public:
-		void Push(const SingleState& st, RepetitionTypes repetition)
-		{
-			Get(repetition).push_back(st);
-		}
-
-		TVector<SingleState>& Get(RepetitionTypes repetition)
-		{
-			switch (repetition) {
-				case NonGreedyRepetition:
-					return m_nonGreedy;
-				case NoRepetition:
-					return m_nothing;
-				case GreedyRepetition:
-					return m_greedy;
-			}
-		}
-
-		const TVector<SingleState>& Get(RepetitionTypes repetition) const
-		{
-			switch (repetition) {
-				case NonGreedyRepetition:
-					return m_nonGreedy;
-				case NoRepetition:
-					return m_nothing;
-				case GreedyRepetition:
-					return m_greedy;
-			}
-		}
-	};
-
 	SlowScanner::State GetNextStates(const SingleState& cur, Char letter) const
 	{
 		SlowScanner::State st(GetSize());
@@ -403,27 +364,27 @@ public:
 		}
 	}
 
-	void InsertStates(const PriorityStates& states, TVector<SingleState>& nonGreedy, TVector<SingleState>& nothing, TVector<SingleState>& greedy) const
-	{
-		for (auto& greed : {ymake_pair(&nonGreedy, NonGreedyRepetition), ymake_pair(&nothing, NoRepetition), ymake_pair(&greedy, GreedyRepetition)}) {
-			auto& vec = greed.first;
-			auto& tag = greed.second;
-			vec->insert(vec->end(), states.Get(tag).begin(), states.Get(tag).end());
-		}
-	}
-
-	void NextAndGetToGroups(PriorityStates& states, const SingleState& cur,
+	/// Appends to `states` everything reachable from `cur` through one transition by the letter
+	/// and then through epsilons, the preferred states first
+	void NextAndGetToGroups(TVector<SingleState>& states, const SingleState& cur,
 							Char letter, size_t pos, TVector<bool>& used) const
 	{
 		TVector<Transition> nextStates;
 		NextStates(cur, letter, nextStates);
-		for (const auto& trans : nextStates) {
+		for (auto type : {NonGreedyRepetition, NoRepetition, GreedyRepetition})
+			FollowTransitions(states, cur, nextStates, type, pos, used);
+	}
+
+	void FollowTransitions(TVector<SingleState>& states, const SingleState& cur, const TVector<Transition>& transitions,
+							RepetitionTypes type, size_t pos, TVector<bool>& used) const
+	{
+		for (const auto& trans : transitions) {
 			size_t st = trans.GetState();
-			if (used[st])
+			const auto& action = trans.GetAction();
+			if (used[st] || RepetitionType(action) != type)
 				continue;
 			used[st] = true;
 			SingleState state(st);
-			const auto& action = trans.GetAction();
 			state.SetBegin(cur.GetBegin());
 			state.SetEnd(cur.GetEnd());
 			if (action & BeginCapture && !cur.HasBegin()) {
@@ -432,22 +393,27 @@ public:
 			if (action & EndCapture && !cur.HasEnd()) {
 				state.SetEnd(pos);
 			}
-			PriorityStates statesInside;
-			NextAndGetToGroups(statesInside, state, Translate(Epsilon), pos, used);
-			statesInside.Push(state, NoRepetition);
-			if (action & EndNonGreedyRepetition) {
-				auto& nongreedy = states.Get(NonGreedyRepetition);
-				InsertStates(statesInside, nongreedy, nongreedy, nongreedy);
-			}
-			else if (!(action & EndRepetition))
-				InsertStates(statesInside, states.Get(NonGreedyRepetition), states.Get(NoRepetition), states.Get(GreedyRepetition));
-			else {
-				auto& greedy = states.Get(GreedyRepetition);
-				InsertStates(statesInside, greedy, greedy, greedy);
-			}
+			Spread(states, state, pos, used);
 		}
 	}
 
+	/// The state itself goes after those reachable through epsilons from it, but before leaving a greedy repetition
+	void Spread(TVector<SingleState>& states, const SingleState& state, size_t pos, TVector<bool>& used) const
+	{
+		TVector<Transition> epsilons;
+		NextStates(state, Translate(Epsilon), epsilons);
+		FollowTransitions(states, state, epsilons, NonGreedyRepetition, pos, used);
+		FollowTransitions(states, state, epsilons, NoRepetition, pos, used);
+		states.push_back(state);
+		FollowTransitions(states, state, epsilons, GreedyRepetition, pos, used);
+	}
+
+	static RepetitionTypes RepetitionType(Action action)
+	{
+		return action & EndNonGreedyRepetition ? NonGreedyRepetition
+			: action & EndRepetition ? GreedyRepetition : NoRepetition;
+	}
+
 	/// The best of final states reachable through the end mark, or the state itself if it is final
 	bool Finish(const SingleState& st, size_t pos, SingleState& final) const
 	{
@@ -455,7 +421,7 @@ public:
 			final = st;
 			return true;
 		}
-		PriorityStates states;
+		TVector<SingleState> states;
 		TVector<bool> used(GetSize());
 		NextAndGetToGroups(states, st, Translate(EndMark), pos, used);
 		State finish;
@@ -501,15 +467,11 @@ public:
 		return false;
 	}
 
-	void UpdateNList(State& nlist, const PriorityStates& states) const
+	void UpdateNList(State& nlist, const TVector<SingleState>& states) const
 	{
-		static constexpr std::array<RepetitionTypes, 3> m_type_by_priority{{NonGreedyRepetition, NoRepetition, GreedyRepetition}};
-		for (const auto type : m_type_by_priority) {
-			for (const auto& state : states.Get(type)) {
-				if (PushState(nlist, state)) // Because we have strict priorities, after matching some state, we can be sure, that not states after will be better
-					return;
-			}
-		}
+		for (const auto& state : states)
+			if (PushState(nlist, state)) // Because we have strict priorities, after matching some state, we can be sure, that not states after will be better
+				return;
 	}
 
 	void Initialize(State& nlist) const
@@ -517,11 +479,10 @@ public:
 		// The begin mark may be consumed by any state reachable from the initial one through epsilons
 		State start;
 		SingleState init(GetStart());
-		PriorityStates states;
+		TVector<SingleState> states;
 		TVector<bool> used(GetSize());
 		used[GetStart()] = true;
-		NextAndGetToGroups(states, init, Translate(Epsilon), 0, used);
-		states.Push(init, NoRepetition);
+		Spread(states, init, 0, used);
 		UpdateNList(start, states);
 		NextStep(start, nlist, Translate(BeginMark), 0);
 	}
@@ -542,7 +503,7 @@ public:
 		TVector<bool> used(GetSize());
 		size_t pos = 0;
 		while (pos < clist.GetSize()) {
-			PriorityStates states;
+			TVector<SingleState> states;
 			NextAndGetToGroups(states, clist.GetState(pos), letter, strpos, used);
 			UpdateNList(nlist, states);
 			++pos;
-- 
2.43.0


From 8500fb264785b2a8a21aed5199c146a674c23031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 41/74] fix: SlowCapturingScanner went on with worse states
 after a match

"^(.|.b+.)" captured "bbc" in "bbc", not "b", if the expression was not surrounded.
---
 pire/extra/capture.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 45350a3..c6f49a6 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -467,11 +467,13 @@ public:
 		return false;
 	}
 
-	void UpdateNList(State& nlist, const TVector<SingleState>& states) const
+	/// Returns true if there is no need to look at any further states
+	bool UpdateNList(State& nlist, const TVector<SingleState>& states) const
 	{
 		for (const auto& state : states)
 			if (PushState(nlist, state)) // Because we have strict priorities, after matching some state, we can be sure, that not states after will be better
-				return;
+				return true;
+		return false;
 	}
 
 	void Initialize(State& nlist) const
@@ -505,7 +507,8 @@ public:
 		while (pos < clist.GetSize()) {
 			TVector<SingleState> states;
 			NextAndGetToGroups(states, clist.GetState(pos), letter, strpos, used);
-			UpdateNList(nlist, states);
+			if (UpdateNList(nlist, states))
+				return;
 			++pos;
 		}
 	}
-- 
2.43.0


From 6d813f31de8ccb195040ab478a0cac2666de06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 42/74] fix: HalfFinalFsm::Compile() returned nothing

---
 pire/half_final_fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 7a25859..326a7e7 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -45,6 +45,6 @@ namespace Pire {
 
 	template<class Scanner>
 	Scanner HalfFinalFsm::Compile() const {
-		auto scanner = Scanner(*this);
+		return Scanner(*this);
 	}
 }
-- 
2.43.0


From 131c0c6135ac33f08e552da9125e4cbfaabd60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 43/74] fix: greedy counters of half-final scanners missed
 matches that end with the end mark

---
 pire/half_final_fsm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index ceb46a8..77c18cf 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -270,6 +270,11 @@ namespace Pire {
 				size_t oldSize = mFsm.Size();
 				mFsm.Import(fsm);
 				mFsm.Unsparse();
+				for (size_t state = 0; state < oldSize; ++state) {
+					if (mFsm.IsFinal(state)) {
+						mFsm.SetFinal(oldSize + state, true);
+					}
+				}
 				for (size_t state = 0; state < mFsm.Size(); ++state) {
 					for (Char letter = 0; letter < MaxChar; ++letter) {
 						Fsm::StatesSet destinations = mFsm.Destinations(state, letter);
-- 
2.43.0


From 279b20229b5683749f55c9e71a0a28bdce4d0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 44/74] fix: greedy counters of half-final scanners counted
 again the tokens swallowed by a longer match

---
 pire/half_final_fsm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 77c18cf..66f6d73 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -220,9 +220,11 @@ namespace Pire {
 
 			void AddState(size_t state, size_t count, bool reachedFinal, bool force = false) {
 				size_t newLastFinalCount = LastFinalCount;
-				if (mFsm.IsFinal(state) && !reachedFinal) {
-					++count;
-					reachedFinal = true;
+				if (mFsm.IsFinal(state)) {
+					if (!reachedFinal) {
+						++count;
+						reachedFinal = true;
+					}
 					newLastFinalCount = count;
 				}
 				for (const auto& addedState : States) {
-- 
2.43.0


From 78f91f54c128cb37e3af0bb01f180b1600be5ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 45/74] fix: greedy counters of half-final scanners lost
 counted tokens when an earlier match was being tried

---
 pire/half_final_fsm.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 66f6d73..e614ac7 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -168,7 +168,7 @@ namespace Pire {
 						next.AddState(nextState, state.Count, state.ReachedFinal);
 					}
 				}
-				next.FinishBuild(maxCount, States.back().Count);
+				next.FinishBuild(maxCount);
 				if (letter == EndMark) {
 					next.ToAdd += next.LastFinalCount;
 					next.LastFinalCount = 0;
@@ -238,11 +238,8 @@ namespace Pire {
 				}
 			}
 
-			void FinishBuild(size_t maxCount, size_t lastCount = 0) {
-				if (!States.empty() && mFsm.IsFinal(States.back().State)) {
-					lastCount = States.back().Count;
-				}
-				AddState(mFsm.Initial(), lastCount, false, true);
+			void FinishBuild(size_t maxCount) {
+				AddState(mFsm.Initial(), LastFinalCount, false, true);
 				LastFinalCount = std::min(LastFinalCount, maxCount);
 				size_t minCount = States[0].Count;
 				for (auto& state : States) {
-- 
2.43.0


From f118c411727bd71aa194fbbe810a8c53325699a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 46/74] fix: non-overlapping counters of expressions matching
 the empty string stopped after one match

---
 pire/half_final_fsm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e614ac7..7f5bd13 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -104,7 +104,8 @@ namespace Pire {
 		fsm.Unsparse();
 		for (size_t state = 0; state != fsm.Size(); ++state) {
 			fsm.SetTag(state, 0);
-			if (fsm.IsFinal(state)) {
+			// If the initial state is final, each position ends an (empty) match, and the search goes on as it is
+			if (fsm.IsFinal(state) && (allowIntersects || state != fsm.Initial())) {
 				for (unsigned letter = 0; letter < MaxChar; ++letter) {
 					Fsm::StatesSet destinations = fsm.Destinations(state, letter);
 					for (const auto& to : destinations) {
-- 
2.43.0


From f0820d0df69b10ba384af6d173d1ddf35ba44fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 47/74] fix: SetFinal() and SetInitial() make the automaton no
 longer a plain union

---
 pire/fsm.cpp | 1 +
 pire/fsm.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 1b67a21..9d24d17 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -269,6 +269,7 @@ void Fsm::SetFinal(size_t state, bool final)
 		m_final.insert(state);
 	else
 		m_final.erase(state);
+	ClearHints();
 }
 
 Fsm& Fsm::AppendDot()
diff --git a/pire/fsm.h b/pire/fsm.h
index 7568462..78cb0d6 100644
--- a/pire/fsm.h
+++ b/pire/fsm.h
@@ -181,7 +181,7 @@ namespace Pire {
 		/// Checks whether two states are connected using any letter.
 		bool Connected(size_t from, size_t to) const;
 		size_t Initial() const { return initial; }
-		void SetInitial(size_t init) { initial = init; }
+		void SetInitial(size_t init) { initial = init; ClearHints(); }
 		
 		const LettersTbl& Letters() const { return letters; }
 		
-- 
2.43.0


From fa4a3f06d848d53826e163cb216beb5eb59d59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 48/74] fix: keep the diverted output when the destination has
 one already

---
 pire/fsm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 9d24d17..a28c1d2 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -1252,7 +1252,7 @@ void Fsm::Divert(size_t from, size_t to, size_t dest)
 		if (oi2 != oi->second.end()) {
 			unsigned long output = oi2->second;
 			oi->second.erase(oi2);
-			oi->second.insert(ymake_pair(dest, output));
+			oi->second[dest] |= output;
 		}
 	}
 
-- 
2.43.0


From 12dc701800c1fb549da3f66835f79261bde6ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 49/74] fix: Sparse() of a sparsed automaton lost transitions

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index a28c1d2..fe76e78 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -871,6 +871,9 @@ bool Fsm::LettersEquality::operator()(Char a, Char b) const
 
 void Fsm::Sparse(bool needEpsilons /* = false */)
 {
+	// Letter classes have to be built by looking at transitions on every letter
+	Unsparse();
+
 	letters = LettersTbl(LettersEquality(m_transitions));
 	for (unsigned letter = 0; letter < MaxChar; ++letter)
 		if (letter != Epsilon || needEpsilons)
-- 
2.43.0


From b085bd80bce619b2cfc5b22f9c73efd19427f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 50/74] fix: do not lose outputs while short-cutting chains of
 empty transitions

---
 pire/fsm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index fe76e78..e35cd5f 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -802,14 +802,14 @@ void Fsm::ShortCutEpsilon(size_t from, size_t thru, TVector< TSet<size_t> >& inv
 {
 	PIRE_IFDEBUG(Cdbg << "In Fsm::ShortCutEpsilon(" << from << ", " << thru << ")\n");
 	const StatesSet& to = Destinations(thru, Epsilon);
-	Outputs::iterator outIt = outputs.find(from);
 	unsigned long fromThruOut = Output(from, thru);
 	for (auto&& toElement : to) {
 		PIRE_IFDEBUG(Cdbg << "Epsilon connecting " << from << " --> " << thru << " --> " << toElement << "\n");
 		Connect(from, toElement, Epsilon);
 		inveps[toElement].insert(from);
-		if (outIt != outputs.end())
-			outIt->second[toElement] |= (fromThruOut | Output(thru, toElement));
+		unsigned long out = fromThruOut | Output(thru, toElement);
+		if (out)
+			outputs[from][toElement] |= out;
 	}
 }
 
-- 
2.43.0


From 6ff82a95fc16d1060fbb8d64d76bb6d39dcf633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 51/74] fix: do not lose outputs of the first transitions in a
 union of two unions

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index e35cd5f..cfed9b9 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -535,6 +535,9 @@ Fsm& Fsm::operator |= (const Fsm& rhs)
 		for (auto&& to : tos) {
 			Connect(initial, to + lhsSize, Epsilon);
 			Disconnect(rhs.initial + lhsSize, to + lhsSize, Epsilon);
+			unsigned long out = rhs.Output(rhs.initial, to);
+			if (out)
+				outputs[initial][to + lhsSize] |= out;
 		}
 	}
 
-- 
2.43.0


From 9a7478616965d069eae436afc74340d487c2370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 52/74] fix: do not expand letter classes of an unpacked
 automaton when importing

---
 pire/fsm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index cfed9b9..c4b82a7 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -390,7 +390,10 @@ void Fsm::Import(const Fsm& rhs)
 
 	size_t oldsize = Resize(Size() + rhs.Size());
 
+	// NB: letter classes do not describe transitions of an FSM which is not sparsed (any more)
 	for (auto&& outer : m_transitions) {
+		if (!m_sparsed)
+			break;
 		for (auto&& letter : letters) {
 			auto targets = outer.find(letter.first);
 			if (targets == outer.end())
@@ -410,6 +413,8 @@ void Fsm::Import(const Fsm& rhs)
 			dest->insert(ymake_pair(inner.first, targets));
 		}
 
+		if (!rhs.m_sparsed)
+			continue;
 		for (auto&& letter : rhs.letters) {
 			auto targets = dest->find(letter.first);
 			if (targets == dest->end())
-- 
2.43.0


From 6f6863f9662b7d99c1acffd0d476c2afad7b6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 53/74] fix: OutgoingLetters() reports letters which have
 transitions, and all of them

---
 pire/fsm.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index c4b82a7..bb938b1 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -238,8 +238,16 @@ const Fsm::StatesSet& Fsm::Destinations(size_t from, Char c) const
 TSet<Char> Fsm::OutgoingLetters(size_t state) const
 {
 	TSet<Char> ret;
-	for (auto&& i : m_transitions[state])
+	for (auto&& i : m_transitions[state]) {
+		if (i.second.empty())
+			continue;
 		ret.insert(i.first);
+		// A sparsed FSM stores transitions of whole letter classes
+		if (m_sparsed && letters.Contains(i.first)) {
+			const TVector<Char>& klass = letters.Klass(letters.Representative(i.first));
+			ret.insert(klass.begin(), klass.end());
+		}
+	}
 	return ret;
 }
 
-- 
2.43.0


From 23421b0972c5f4b6078174545fa24200830b96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 54/74] fix: approximate matching replaced, removed and moved
 begin and end marks

---
 pire/approx_matching.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 23f74ca..d692498 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -23,12 +23,20 @@
 #include "approx_matching.h"
 
 namespace Pire {
+	// Only characters can be substituted, deleted, inserted or swapped;
+	// begin and end marks always stay where they are.
+	static const Char CharsCount = 1 << (sizeof(char) * 8);
+
 	Fsm CreateApproxFsm(const Fsm& regexp, size_t distance) {
 		Fsm approxFsm = regexp;
 
 		TVector<TSet<Char>> outgoingLettersTable(regexp.Size());
 		for (size_t state = 0; state < regexp.Size(); ++state) {
-			outgoingLettersTable[state] = regexp.OutgoingLetters(state);
+			for (Char letter : regexp.OutgoingLetters(state)) {
+				if (letter < CharsCount) {
+					outgoingLettersTable[state].insert(letter);
+				}
+			}
 		}
 
 		TVector<TMap<Char, Fsm::StatesSet>> destinationsTable(regexp.Size());
@@ -45,7 +53,7 @@ namespace Pire {
 			for (size_t state = 0; state < regexp.Size(); ++state) {
 				for (Char letter : outgoingLettersTable[state]) {
 					for (size_t to : destinationsTable[state][letter]) {
-						for (Char ch = 0; ch < MaxChar; ++ch) {
+						for (Char ch = 0; ch < CharsCount; ++ch) {
 							if (!approxFsm.Connected(state + shift, to + shift, ch)) {
 								approxFsm.Connect(state + shift, to + shift + regexp.Size(), ch);
 							}
@@ -54,7 +62,7 @@ namespace Pire {
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
 
-					for (Char ch = 0; ch < MaxChar; ++ch) {
+					for (Char ch = 0; ch < CharsCount; ++ch) {
 						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 					}
 				}
-- 
2.43.0


From 59a811e2d94f19d4f16685077388ad5f740ed282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 55/74] fix: approximate matching did not insert characters at
 the very end and next to marks

---
 pire/approx_matching.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index d692498..52550f5 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -61,10 +61,10 @@ namespace Pire {
 
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
+				}
 
-					for (Char ch = 0; ch < CharsCount; ++ch) {
-						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
-					}
+				for (Char ch = 0; ch < CharsCount; ++ch) {
+					approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 				}
 
 				if (regexp.IsFinal(state)) {
-- 
2.43.0


From e13f8bdd631758018ed5b9ae3e18415930ca11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 56/74] fix: approximate matching did not swap characters with
 an epsilon transition between them

---
 pire/approx_matching.cpp | 45 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 52550f5..32c4ee8 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -27,6 +27,21 @@ namespace Pire {
 	// begin and end marks always stay where they are.
 	static const Char CharsCount = 1 << (sizeof(char) * 8);
 
+	// All states reachable from the given one by epsilon transitions
+	static TSet<size_t> EpsilonClosure(const Fsm& fsm, size_t state) {
+		TSet<size_t> closure;
+		TVector<size_t> stack(1, state);
+		while (!stack.empty()) {
+			size_t from = stack.back();
+			stack.pop_back();
+			if (closure.insert(from).second) {
+				const Fsm::StatesSet& tos = fsm.Destinations(from, Epsilon);
+				stack.insert(stack.end(), tos.begin(), tos.end());
+			}
+		}
+		return closure;
+	}
+
 	Fsm CreateApproxFsm(const Fsm& regexp, size_t distance) {
 		Fsm approxFsm = regexp;
 
@@ -73,22 +88,36 @@ namespace Pire {
 			}
 		}
 
+		// For each state, letters leading to each of the other ones
+		TVector<TMap<size_t, TVector<Char>>> lettersTable(regexp.Size());
+		for (size_t state = 0; state < regexp.Size(); ++state) {
+			for (auto&& destinations : destinationsTable[state]) {
+				for (size_t to : destinations.second) {
+					lettersTable[state][to].push_back(destinations.first);
+				}
+			}
+		}
+
 		size_t maxState = (distance > 0) ? approxFsm.Size() - regexp.Size() : 0;
 		for (size_t state = 0; state < maxState; ++state) {
 			size_t currentDist = state / regexp.Size();
 			size_t intState = state % regexp.Size();
 
-			for (Char firstLetter : outgoingLettersTable[intState]) {
-				for (size_t firstDest : destinationsTable[intState][firstLetter]) {
-					for (Char secondLetter : outgoingLettersTable[firstDest]) {
-						for (size_t secondDest : destinationsTable[firstDest][secondLetter]) {
-							if (secondDest != intState || firstDest != intState) {
-								approxFsm.Resize(approxFsm.Size() + 1);
+			for (auto&& first : lettersTable[intState]) {
+				size_t firstDest = first.first;
+				for (size_t secondSrc : EpsilonClosure(regexp, firstDest)) {
+					for (auto&& second : lettersTable[secondSrc]) {
+						size_t secondDest = second.first;
+						if (secondDest != intState || firstDest != intState) {
+							approxFsm.Resize(approxFsm.Size() + 1);
 
-								size_t to = secondDest + (currentDist + 1) * regexp.Size();
-								size_t middle = approxFsm.Size() - 1;
+							size_t to = secondDest + (currentDist + 1) * regexp.Size();
+							size_t middle = approxFsm.Size() - 1;
 
+							for (Char secondLetter : second.second) {
 								approxFsm.Connect(state, middle, secondLetter);
+							}
+							for (Char firstLetter : first.second) {
 								approxFsm.Connect(middle, to, firstLetter);
 							}
 						}
-- 
2.43.0


From ff440e7d7b6ce1e5d6e31216855ce301207271e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 57/74] fix: approximate matching of a determined automaton hit
 an assertion

---
 pire/approx_matching.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 32c4ee8..ee7231c 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -126,6 +126,9 @@ namespace Pire {
 			}
 		}
 
+		if (distance > 0)
+			approxFsm.SetIsDetermined(false);
+
 		return approxFsm;
 	}
 }
-- 
2.43.0


From 49ebff0e5295b9376bd4d1c127b8adf9716ceace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 58/74] fix: reading a UTF-8 character at the end of the text
 looked at the byte behind it

---
 pire/encoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/encoding.cpp b/pire/encoding.cpp
index 5726096..d550be3 100644
--- a/pire/encoding.cpp
+++ b/pire/encoding.cpp
@@ -78,6 +78,8 @@ namespace {
 
 		wchar32 FromLocal(const char*& begin, const char* end) const
 		{
+			if (begin == end)
+				throw Error("EOF reached in Pire::UTF8::fromLocal()");
 			wchar32 rune;
 			size_t len;
 			if (utf8_read_rune(rune, len, reinterpret_cast<const unsigned char*>(begin), reinterpret_cast<const unsigned char*>(end)) != RECODE_OK)
-- 
2.43.0


From 3d614a9fb73252985fbbe849b65bba9ba7ba806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 59/74] fix: first use of a singleton in two threads at once
 was a data race

---
 pire/stub/singleton.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pire/stub/singleton.h b/pire/stub/singleton.h
index 0079cac..21b8a20 100644
--- a/pire/stub/singleton.h
+++ b/pire/stub/singleton.h
@@ -26,13 +26,10 @@
 
 namespace Pire {
 	
-	// FIXME: not thread safe.
 	template<class T>
 	T* Singleton()
 	{
-		static T* p = 0;
-		if (!p)
-			p = new T;
+		static T* p = new T;
 		return p;
 	}
 	template<class T>
-- 
2.43.0


From e071e6a34c7c697710d9820be39a54755ddaf2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 60/74] fix: pigrep named the first file when another one could
 not be opened

---
 samples/pigrep/pigrep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/pigrep/pigrep.cpp b/samples/pigrep/pigrep.cpp
index 5918ad0..5273448 100644
--- a/samples/pigrep/pigrep.cpp
+++ b/samples/pigrep/pigrep.cpp
@@ -98,7 +98,7 @@ int main(int argc, char** argv)
                 if (*filename != std::string("-")) {
                     fs.open(*filename);
                     if (!fs)
-                        throw std::runtime_error("cannot open file " + std::string(argv[0]));
+                        throw std::runtime_error("cannot open file " + std::string(*filename));
                     prefix = *filename;
                     s = &fs;
                 }
-- 
2.43.0


From 3b95b77f3a2803cc90a8943d9f93b09dc1df4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:07 +0000
Subject: [PATCH 61/74] fix: blacklist said nothing when the dictionary could
 not be written

---
 samples/blacklist/blacklist.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/samples/blacklist/blacklist.cpp b/samples/blacklist/blacklist.cpp
index 0124963..0238409 100644
--- a/samples/blacklist/blacklist.cpp
+++ b/samples/blacklist/blacklist.cpp
@@ -71,7 +71,12 @@ void Generate(const std::string& outputFile)
     re = Pire::Lexer("^([a-z]+://)?([A-Za-z0-9\\-]+\\.)*").Parse() + re + Pire::Lexer("(/.*)?$").Parse();
     
     std::fstream ofs(outputFile.c_str(), std::ios::out | std::ios::binary);
+    if (!ofs)
+        throw std::runtime_error("cannot open file " + outputFile);
     Pire::Scanner(re).Save(&ofs);
+    ofs.close();
+    if (!ofs)
+        throw std::runtime_error("cannot write file " + outputFile);
 }
 
 void Filter(const Pire::Scanner& sc)
-- 
2.43.0


From f8fe6cb516059229274c6ce97cc61a541d066b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 62/74] fix: pire_inline lost characters (and lines) following
 asterisks in comments and hung on unterminated ones

---
 pire/inline.lpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 174d2e3..1e16cdd 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -205,25 +205,23 @@ void eatComment(void (*action)(char));
 
 void eatComment(void (*action)(char))
 {
-	int c;
 	action('/'); action('*');
+	int c = yyinput();
 	for (;;) {
-		while ((c = yyinput()) != EOF && c != '*') {
-			if (c == '\n')
-				++line;
-			action(c);
-		}
+		// Newer versions of flex return 0 at the end of file
+		if (c == EOF || c == 0)
+			Die() << "EOF in comment";
+		if (c == '\n')
+			++line;
+		action(c);
 		if (c == '*') {
-			action(c);
-			while ((c = yyinput()) == '*')
-				action(c);
+			c = yyinput();
 			if (c == '/') {
 				action(c);
 				break;
 			}
-		}
-		if (c == EOF)
-			Die() << "EOF in comment";
+		} else
+			c = yyinput();
 	}
 }
 
-- 
2.43.0


From 729545b38ddc18e5cd8b7bd904bb689749aafbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 63/74] fix: pire_inline reported errors without saying what is
 wrong

---
 pire/inline.lpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 1e16cdd..4663206 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <vector>
 #include <string>
+#include <sstream>
 #include <stdexcept>
 #include "stub/lexical_cast.h"
 #include "stub/saveload.h"
@@ -43,13 +44,16 @@ static int isatty(int) { return 0; }
 class Die {
 public:
 	Die() {
-		Msg = filename.empty() ? "pire_inline" : (filename + ":" + ToString(line) + ":");
+		Msg = filename.empty() ? "pire_inline: " : (filename + ":" + ToString(line) + ": ");
 	}
 
 
 	template<class T>
 	Die& operator << (const T& t) {
-		Msg += ToString(t);
+		// ToString() would only keep the first word
+		std::ostringstream s;
+		s << t;
+		Msg += s.str();
 		return *this;
 	}
 
@@ -156,7 +160,7 @@ void eatComment(void (*action)(char));
 			fsm = lexer.Parse();
 		}
 		catch (std::exception& e) {
-			Die() << "" << filename << ":" <<  line << ": " <<  e.what() << "";
+			Die() << e.what();
 		}
 		if (reverse)
 			fsm.Reverse();
-- 
2.43.0


From 111d12928e7d7e33974624835520b04509958ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 64/74] fix: pire_inline mistook the ends of strings with
 escaped backslashes and quotes in character literals

---
 pire/inline.lpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 4663206..5cca27a 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -72,6 +72,8 @@ Die DieHelper() {
 void putChar(char c) { putc(c, yyout); }
 void suppressChar(char) {}
 void eatComment(void (*action)(char));
+void countLines();
+void putText();
 
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
@@ -84,12 +86,14 @@ void eatComment(void (*action)(char));
 <INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
 <Regexp>"//".*\n         { ++line; }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"]|\\.)*"\""     { fprintf(yyout, "%s", yytext); }
+"\""([^\"\\\n]|\\(.|\n))*"\""     { putText(); }
+"'"([^'\\\n]|\\.[0-9A-Fa-f]*)"'"     { putText(); }
 \n                       { ++line; putc('\n', yyout); }
 
 
 <INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"]|\\.)*"\"" {
+<Regexp>"\""([^\"\\\n]|\\(.|\n))*"\"" {
+	countLines();
 	ystring& s = args.back();
 	const char* p;
 	for (p = yytext + 1; *p && p[1]; ++p) {
@@ -99,6 +103,8 @@ void eatComment(void (*action)(char));
 				Die() << "string ends with a backslash";
 			else if (*p == '\'' || *p == '\"' || *p == '\\')
 				s.push_back(*p);
+			else if (*p == '\n')
+				continue;
 			else if (*p == 'n')
 				s.push_back('\n');
 			else if (*p == 't')
@@ -229,6 +235,19 @@ void eatComment(void (*action)(char))
 	}
 }
 
+void countLines()
+{
+	for (int i = 0; i < yyleng; ++i)
+		if (yytext[i] == '\n')
+			++line;
+}
+
+void putText()
+{
+	countLines();
+	fwrite(yytext, 1, yyleng, yyout);
+}
+
 int yywrap() { return 1; }
 
 
-- 
2.43.0


From 9c8641bfd979f98130b5bceca54005a207fb3cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 65/74] fix: pire_inline misread octal and hexadecimal escape
 sequences

---
 pire/inline.lpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 5cca27a..11e1ccf 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -74,6 +74,7 @@ void suppressChar(char) {}
 void eatComment(void (*action)(char));
 void countLines();
 void putText();
+void pushCode(ystring& s, unsigned long code);
 
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
@@ -109,16 +110,23 @@ void putText();
 				s.push_back('\n');
 			else if (*p == 't')
 				s.push_back('\t');
-			else if (isdigit(*p)) {
+			else if (*p == 'r')
+				s.push_back('\r');
+			else if (*p >= '0' && *p <= '7') {
+				// up to three octal digits
 				const char* beg = p;
-				while (isdigit(*p))
+				while (p - beg < 3 && *p >= '0' && *p <= '7')
 					++p;
-				s.push_back(strtol(ystring(beg, p).c_str(), 0, 8));
+				pushCode(s, strtoul(ystring(beg, p).c_str(), 0, 8));
+				--p;
 			} else if (*p == 'x') {
-				const char* beg = p;
-				while (isdigit(*p) || (*p > 'a' && *p <= 'f') || (*p > 'A' && *p < 'F'))
+				const char* beg = ++p;
+				while (isxdigit(static_cast<unsigned char>(*p)))
 					++p;
-				s.push_back(strtol(ystring(beg, p).c_str(), 0, 16));
+				if (p == beg)
+					Die() << "no digits in escape sequence (\\x)";
+				pushCode(s, strtoul(ystring(beg, p).c_str(), 0, 16));
+				--p;
 			} else
 				Die() << "unknown escape sequence (\\" <<  *p << ")";
 		} else
@@ -248,6 +256,13 @@ void putText()
 	fwrite(yytext, 1, yyleng, yyout);
 }
 
+void pushCode(ystring& s, unsigned long code)
+{
+	if (code > 0xFF)
+		Die() << "escape sequence out of range";
+	s.push_back(static_cast<char>(code));
+}
+
 int yywrap() { return 1; }
 
 
-- 
2.43.0


From cb6cf135176bc6a885a956a6fb12132ff55a1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 66/74] fix: pire_inline did not decode patterns from their
 encoding, non-ASCII characters of UTF-8 ones were mistaken

---
 pire/inline.lpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 11e1ccf..e7b58f2 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -28,6 +28,7 @@
 #include <string>
 #include <sstream>
 #include <stdexcept>
+#include <iterator>
 #include "stub/lexical_cast.h"
 #include "stub/saveload.h"
 #include "stub/memstreams.h"
@@ -148,7 +149,7 @@ void pushCode(ystring& s, unsigned long code);
 	ystring pattern;
 	for (auto i = args.begin(), ie = args.end(); i != ie; i += 2) {
 
-		Pire::Lexer lexer(i->c_str(), i->c_str() + i->size());
+		Pire::Lexer lexer;
 		bool surround = false;
 		bool greedy = false;
 		bool reverse = false;
@@ -171,6 +172,9 @@ void pushCode(ystring& s, unsigned long code);
 
 		Pire::Fsm fsm;
 		try {
+			TVector<Pire::wchar32> ucs4;
+			lexer.Encoding().FromLocal(i->data(), i->data() + i->size(), std::back_inserter(ucs4));
+			lexer.Assign(ucs4.begin(), ucs4.end());
 			fsm = lexer.Parse();
 		}
 		catch (std::exception& e) {
-- 
2.43.0


From 624baacd8d6c94a5c19dbb371db426ad10bd9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 67/74] fix: pire_inline made broken code of patterns with line
 feeds or with a backslash at the end

---
 pire/inline.lpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index e7b58f2..f70edec 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -205,7 +205,11 @@ void pushCode(ystring& s, unsigned long code);
 	AlignedOutput stream(&buf);
 	Save(&stream, sc);
 
-	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // %s \n    \"", pattern.c_str());
+	// The comment must stay on its line
+	for (auto&& c : pattern)
+		if (c == '\n' || c == '\r')
+			c = ' ';
+	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // \"%s\"\n    \"", pattern.c_str());
 	size_t pos = 5;
 	for (auto i = buf.Buffer().Begin(), ie = buf.Buffer().End(); i != ie; ++i) {
 		pos += fprintf(yyout, "\\x%02X", static_cast<unsigned char>(*i));
-- 
2.43.0


From 7e13b8338b68c81e3e42179a5dcfca80ffe29a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 68/74] fix: pire_inline overlooked PIRE_REGEXP followed by a
 space and replaced the ends of longer names

---
 pire/inline.lpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index f70edec..c19cf3a 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -93,7 +93,8 @@ void pushCode(ystring& s, unsigned long code);
 \n                       { ++line; putc('\n', yyout); }
 
 
-<INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
+<INITIAL>[A-Za-z_][A-Za-z0-9_]* { putText(); }
+<INITIAL>"PIRE_REGEXP"[ \t\r\n\f\v]*"(" { countLines(); BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\\n]|\\(.|\n))*"\"" {
 	countLines();
 	ystring& s = args.back();
-- 
2.43.0


From 26c959300a89c7e07ea50277fb3f235e5da2e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 69/74] fix: pire_inline made code of malformed uses of
 PIRE_REGEXP

---
 pire/inline.lpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index c19cf3a..5ad0fc4 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -137,7 +137,7 @@ void pushCode(ystring& s, unsigned long code);
 	if (!*p)
 		Die() << "string ends with a backslash";
 }
-<Regexp>[ \t]            {}
+<Regexp>[ \t\r\f\v]      {}
 <Regexp>\n               { ++line; }
 <Regexp>","              { args.push_back(ystring()); }
 <Regexp>")" {
@@ -223,6 +223,8 @@ void pushCode(ystring& s, unsigned long code);
 		(unsigned int) buf.Buffer().Size(), line, filename.c_str());
 	BEGIN(INITIAL);
 }
+<Regexp>.                { Die() << "unexpected character '" << *yytext << "' in PIRE_REGEXP"; }
+<Regexp><<EOF>>          { Die() << "EOF in PIRE_REGEXP"; }
 <INITIAL>.               { putc(*yytext, yyout); }
 
 
-- 
2.43.0


From fa3a569708cad568ef22d254f0dc8c671a6556f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 70/74] fix: pire_inline did not recognize one-line comments at
 the end of file and continued ones

---
 pire/inline.lpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 5ad0fc4..4632ffb 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -85,8 +85,8 @@ void pushCode(ystring& s, unsigned long code);
 
 <INITIAL>"/*"            { eatComment(putChar); }
 <Regexp>"/*"             { eatComment(suppressChar); }
-<INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
-<Regexp>"//".*\n         { ++line; }
+<INITIAL>"//"([^\\\n]|\\(.|\n))*        { putText(); }
+<Regexp>"//"([^\\\n]|\\(.|\n))*         { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
 "\""([^\"\\\n]|\\(.|\n))*"\""     { putText(); }
 "'"([^'\\\n]|\\.[0-9A-Fa-f]*)"'"     { putText(); }
-- 
2.43.0


From d0ab7177017c99278b0c7fcf3c42504739758e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 71/74] fix: pire_inline gave an empty scanner for patterns
 which could not be glued, and no line of other errors

---
 pire/inline.lpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 4632ffb..1a8cba3 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -181,24 +181,32 @@ void pushCode(ystring& s, unsigned long code);
 		catch (std::exception& e) {
 			Die() << e.what();
 		}
-		if (reverse)
-			fsm.Reverse();
 		if (greedy && surround)
 			Die() << "greedy and surround options are incompatible";
-		if (greedy)
-			fsm = ~fsm.Surrounded() + fsm;
-		else if (surround)
-			fsm.Surround();
-		
-		Pire::Scanner tsc(fsm);
-		if (first) {
-			pattern = *i;
-			first = false;
-			tsc.Swap(sc);
-		} else {
-			sc = Pire::Scanner::Glue(sc, tsc);
-			pattern += " | ";
-			pattern += *i;
+
+		try {
+			if (reverse)
+				fsm.Reverse();
+			if (greedy)
+				fsm = ~fsm.Surrounded() + fsm;
+			else if (surround)
+				fsm.Surround();
+
+			Pire::Scanner tsc(fsm);
+			if (first) {
+				pattern = *i;
+				first = false;
+				tsc.Swap(sc);
+			} else {
+				sc = Pire::Scanner::Glue(sc, tsc);
+				if (sc.Empty())
+					throw Pire::Error("too many patterns to be glued");
+				pattern += " | ";
+				pattern += *i;
+			}
+		}
+		catch (std::exception& e) {
+			Die() << e.what();
 		}
 	}
 
-- 
2.43.0


From 1c69302a738ee87e0125d1ab027f7118121ae389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 72/74] fix: pire_inline takes continued lines which end in CR
 LF

---
 pire/inline.lpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 1a8cba3..cdf6c8e 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -85,17 +85,17 @@ void pushCode(ystring& s, unsigned long code);
 
 <INITIAL>"/*"            { eatComment(putChar); }
 <Regexp>"/*"             { eatComment(suppressChar); }
-<INITIAL>"//"([^\\\n]|\\(.|\n))*        { putText(); }
-<Regexp>"//"([^\\\n]|\\(.|\n))*         { countLines(); }
+<INITIAL>"//"([^\\\n]|\\(.|\r?\n))*        { putText(); }
+<Regexp>"//"([^\\\n]|\\(.|\r?\n))*         { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"\\\n]|\\(.|\n))*"\""     { putText(); }
+"\""([^\"\\\n]|\\(.|\r?\n))*"\""     { putText(); }
 "'"([^'\\\n]|\\.[0-9A-Fa-f]*)"'"     { putText(); }
 \n                       { ++line; putc('\n', yyout); }
 
 
 <INITIAL>[A-Za-z_][A-Za-z0-9_]* { putText(); }
 <INITIAL>"PIRE_REGEXP"[ \t\r\n\f\v]*"(" { countLines(); BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"\\\n]|\\(.|\n))*"\"" {
+<Regexp>"\""([^\"\\\n]|\\(.|\r?\n))*"\"" {
 	countLines();
 	ystring& s = args.back();
 	const char* p;
@@ -106,7 +106,7 @@ void pushCode(ystring& s, unsigned long code);
 				Die() << "string ends with a backslash";
 			else if (*p == '\'' || *p == '\"' || *p == '\\')
 				s.push_back(*p);
-			else if (*p == '\n')
+			else if (*p == '\n' || (*p == '\r' && p[1] == '\n' && *++p))
 				continue;
 			else if (*p == 'n')
 				s.push_back('\n');
-- 
2.43.0


From 019c263d05f2ba06aa4692871e695cdb6c8b6d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 73/74] fix: pire_inline ended one-line comments too early if
 two backslashes stand at the end of line

---
 pire/inline.lpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index cdf6c8e..a2d4c82 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -85,8 +85,8 @@ void pushCode(ystring& s, unsigned long code);
 
 <INITIAL>"/*"            { eatComment(putChar); }
 <Regexp>"/*"             { eatComment(suppressChar); }
-<INITIAL>"//"([^\\\n]|\\(.|\r?\n))*        { putText(); }
-<Regexp>"//"([^\\\n]|\\(.|\r?\n))*         { countLines(); }
+<INITIAL>"//"([^\n]|\\\r?\n)*        { putText(); }
+<Regexp>"//"([^\n]|\\\r?\n)*         { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
 "\""([^\"\\\n]|\\(.|\r?\n))*"\""     { putText(); }
 "'"([^'\\\n]|\\.[0-9A-Fa-f]*)"'"     { putText(); }
-- 
2.43.0


From 37b217623f530c697005c858e39c3b0fd8a45c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:48 +0000
Subject: [PATCH 74/74] fix: parse patterns nested deeper than the initial
 parser stack

YYSTYPE is a pointer, but was declared non-trivial, so that bison did not grow
the stack: 99 nested groups were refused as a syntax error.
---
 pire/re_parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/re_parser.y b/pire/re_parser.y
index 14e7aa5..b5c494f 100644
--- a/pire/re_parser.y
+++ b/pire/re_parser.y
@@ -42,7 +42,7 @@
 #include "stub/stl.h"
 
 #define YYSTYPE Any*
-#define YYSTYPE_IS_TRIVIAL 0
+#define YYSTYPE_IS_TRIVIAL 1
 
 namespace {
 
-- 
2.43.0

