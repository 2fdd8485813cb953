From 111a6c375b2797b2a635e056582c920c4e74bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 01/85] Add observation points for a runtime monitor (guarded
 by FUNGE_MONITOR)

---
 src/FungeRunner.cpp        |  4 ++++
 src/FungeUniverse.cpp      |  4 ++++
 src/include/FungeMonitor.h | 27 +++++++++++++++++++++++++++
 3 files changed, 35 insertions(+)
 create mode 100644 src/include/FungeMonitor.h

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..13ca8ed 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FungeRunner.h"
+#include "FungeMonitor.h"
 #include "Unefunge93Strategy.h"
 #include "Unefunge98Strategy.h"
 #include "Befunge93Strategy.h"
@@ -134,6 +135,9 @@ void FungeRunner::tick(){
 	do {
 		getUniverse().getDebugger().tick(*this);
 		inst_t i = ip.get();
+#ifdef FUNGE_MONITOR
+		monitorStep(*this, i);
+#endif
 		err = execute(i);
 		switch(err){
 			[[likely]] case ERROR_NONE:
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..707bdde 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FungeUniverse.h"
+#include "FungeMonitor.h"
 #include "FungeRunner.h"
 #include "FungeConfig.h"
 
@@ -53,6 +54,9 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 FungeUniverse::~FungeUniverse(){
 	killAll(1);
 	thread->join();
+#ifdef FUNGE_MONITOR
+	monitorEnd(*this);
+#endif
 
 	std::lock_guard<std::mutex> guard(mutex);
 	while(threads.size() > 0){
diff --git a/src/include/FungeMonitor.h b/src/include/FungeMonitor.h
new file mode 100644
index 0000000..29f2d5f
--- /dev/null
+++ b/src/include/FungeMonitor.h
@@ -0,0 +1,27 @@
+/**
+ * @file FungeMonitor.h
+ * Observation points for an external runtime monitor.
+ * @note Empty unless FUNGE_MONITOR is defined.
+ */
+
+#pragma once
+
+#ifdef FUNGE_MONITOR
+#include "funge_types.h"
+
+namespace Funge {
+class FungeRunner;
+class FungeUniverse;
+
+/**
+ * Called before a runner executes the instruction under its IP.
+ */
+void monitorStep(FungeRunner& runner, inst_t i);
+
+/**
+ * Called before a universe is torn down.
+ */
+void monitorEnd(FungeUniverse& universe);
+
+}
+#endif
-- 
2.43.0


From 62ba7bcddbda2357d140b44928175a335767c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 02/85] fix: . prints the whole 64-bit cell

---
 src/Unefunge93Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..e6a63c0 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -250,7 +250,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 3d91af56872a062c64739fce6bd4717018460eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 03/85] fix: ' and s transfer the whole 64-bit cell

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..955e135 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(ip.get());
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From f624642af27ef1e1fea17788464ddb9cfac9c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 04/85] fix: k reads the whole count and instruction cells, and
 0k skips the instruction it found

---
 src/Unefunge98Strategy.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 955e135..31dc0ba 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = ip.get();
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -127,13 +127,14 @@ FungeError Unefunge98Strategy::instructionIterate(){
 			c = ip.get();
 		}
 	}
+	const Vector target = ip.getPos();
 	ip.setPos(v);
-	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
+	const stack_t k = stack.top().pop();
+	for(stack_t i = 0; i < k; i++){
 		runner.execute(c);
 	}
 	if(k == 0){
-		ip.next();
+		ip.setPos(target);
 	}
 	return ERROR_NONE;
 }
-- 
2.43.0


From 9ab3f24cfba55d4bc56e7c75a6323027697e2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 05/85] fix: j uses the whole 64-bit distance

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 31dc0ba..adc3ad5 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -86,11 +86,11 @@ FungeError Unefunge98Strategy::instructionJumpOver(){
 }
 
 FungeError Unefunge98Strategy::instructionJumpForward(){
-	int j = stack.top().pop();
+	const stack_t j = stack.top().pop();
 	if(j < 0){
 		ip.reflect();
 	}
-	for(int i = 0; i < std::abs(j); i++){
+	for(stack_t i = 0; i != j; i += (j < 0 ? -1 : 1)){
 		ip.next();
 	}
 	if(j < 0){
-- 
2.43.0


From 43f1ddc690f19c9c94736d134642266d856b6e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 06/85] fix: y uses the whole 64-bit argument

---
 src/Unefunge98Strategy.cpp       | 2 +-
 src/include/Unefunge98Strategy.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index adc3ad5..04d2848 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -354,7 +354,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 	return ret;
 }
 
-void Unefunge98Strategy::pushSysInfo(int num){
+void Unefunge98Strategy::pushSysInfo(stack_t num){
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index 8c16f6f..d82e647 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -49,7 +49,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionLoad();
 		FungeError instructionUnload();
 
-		void pushSysInfo(int num);
+		void pushSysInfo(stack_t num);
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From 404946abec062d7ab5ecfdf61a88214c6acde77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 07/85] fix: an instruction that fails under k reflects the IP

---
 src/Unefunge98Strategy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 04d2848..9456eaa 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -131,7 +131,10 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	ip.setPos(v);
 	const stack_t k = stack.top().pop();
 	for(stack_t i = 0; i < k; i++){
-		runner.execute(c);
+		FungeError err = runner.execute(c);
+		if(err != ERROR_NONE && err != ERROR_SKIP && err != ERROR_BLOCK){
+			ip.reflect();
+		}
 	}
 	if(k == 0){
 		ip.setPos(target);
-- 
2.43.0


From aed655ecd029fd146a8b9b4c4a54eacad00d1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 08/85] fix: & accepts a number that ends at end of input

---
 src/Unefunge93Strategy.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index e6a63c0..031837c 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -208,11 +208,10 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
-	ungetc(c, stdin);
+	if(c != EOF){
+		ungetc(c, stdin);
+	}
 	stack.top().push(num);
 	return ERROR_NONE;
 }
-- 
2.43.0


From 5060337ec900a1d4feb9d76e3c960fa88d361aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 09/85] fix: new stacks obey the stack mode in force

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..ad08948 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -10,6 +10,7 @@ namespace Funge {
 
 StackStack::StackStack() :
 	select(0),
+	mode(),
 	stack()
 {
 	stack.push_back(new Stack());
@@ -24,6 +25,7 @@ StackStack::~StackStack()
 
 StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
+	mode(),
 	stack()
 {
 	for(size_t i = 0; i < orig.size(); ++i){
@@ -63,12 +65,14 @@ void StackStack::pop(){
 
 void StackStack::push(){
 	stack.push_back(new Stack());
+	stack.back()->setMode(mode);
 }
 
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	iter = stack.insert(iter, new Stack());
+	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
@@ -82,6 +86,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2bd50bd 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -139,6 +139,7 @@ class StackStack {
 		
 	private:
 		size_t select;
+		FungeMode mode;
 		std::vector<Stack*> stack;
 };
 
-- 
2.43.0


From 385b8e889c4aef00bfbb9434f8c04885224df225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 10/85] fix: keep every non-space cell inside the reported
 bounds

---
 src/Field.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..d3ae151 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -258,7 +258,12 @@ void Field::put(const Vector& p, inst_t v){
 		if(find != field.end()){
 			field.erase(find);
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
+			if(field.empty()){
+				maxs[i] = 0;
+				mins[i] = 0;
+				continue;
+			}
 			if(maxs[i] == p[i]){
 				// scan for new max
 				dim_t max = std::numeric_limits<dim_t>::min() ;
@@ -281,7 +286,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-- 
2.43.0


From ada72c5a85561f2f9ea63e04df41732607fb2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 11/85] fix: the Befunge-93 torus is 80x25

---
 src/InstructionPointer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..de7fb2a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,12 +55,12 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
+			if(pos.get(0) >= 80){
 				pos.set(0, 0);
 			}else if(pos.get(0) < 0){
 				pos.set(0, 79);
 			}
-			if(pos.get(1) > 25){
+			if(pos.get(1) >= 25){
 				pos.set(1, 0);
 			}else if(pos.get(1) < 0){
 				pos.set(1, 24);
-- 
2.43.0


From eae85d1e068159056cb9644f4d34ff083529dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 12/85] fix: { and } do not overflow the C++ stack for large
 counts

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 9456eaa..e8a6b90 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -189,7 +189,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
 	stack.push();
 	if(n > 0){
-		stack_t trans[n];
+		std::vector<stack_t> trans(n);
 		for(stack_t i = 0; i < n; ++i){
 			trans[i] = stack.second().pop();
 		}
@@ -218,7 +218,7 @@ FungeError Unefunge98Strategy::instructionEnd(){
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
 		if(n > 0){
-			stack_t trans[n];
+			std::vector<stack_t> trans(n);
 			for(stack_t i = 0; i < n; ++i){
 				trans[i] = stack.top().pop();
 			}
-- 
2.43.0


From 987550b0b9dee391eff4ed5fd5288458944e14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 13/85] fix: division and remainder of the least cell by -1 do
 not trap

---
 src/Unefunge93Strategy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 031837c..712cb98 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -121,7 +121,7 @@ FungeError Unefunge93Strategy::instructionNot(){
 FungeError Unefunge93Strategy::instructionRemainder(){
 	stack_t a = stack.top().pop();
 	stack_t b = stack.top().pop();
-	if(a == 0){
+	if(a == 0 || a == -1){
 		stack.top().push(0);
 	}else{
 		stack.top().push(b%a);
@@ -155,6 +155,9 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		// The least cell divided by -1 wraps
+		stack.top().push(static_cast<stack_t>(0-static_cast<uint64_t>(b)));
 	}else{
 		stack.top().push(b/a);
 	}
-- 
2.43.0


From b18550fab113e6a25ef6e32b12fc1bd124b21d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 14/85] fix: SGML strings accept any cell value

---
 src/FungeStateString.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..ea12ab3 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -10,6 +10,11 @@
 
 namespace Funge {
 
+static bool isSpace(inst_t i){
+	// isspace() is only defined for unsigned char values
+	return i >= 0 && i <= 0xFF && isspace(static_cast<int>(i));
+}
+
 FungeStateString::FungeStateString(FungeRunner& r) :
 	FungeState(r),
 	end('\"'),
@@ -65,7 +70,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isSpace(i) || !isSpace(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From b6701b2f807c17e9311c24955c46b4685799e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 15/85] fix: a third universe of the same name gets a name of
 its own

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 7f8b1323031c721b4204de9d27cb405238eec0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 16/85] fix: an empty option value is reported, not
 dereferenced

---
 src/Funge.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..f69142c 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -109,8 +109,7 @@ int fungemain(int argc, char **argv, char **envp){
 		if(argv[a][0] != '-'){
 			break;
 		}else if(strncmp(argv[a], "-std=", 5) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=')+1;
 			if(strcmp(arg, "une93") == 0){
 				funge_config.dimensions = 1;
 				funge_config.standard = Funge::FUNGE_93;
@@ -165,8 +164,7 @@ int fungemain(int argc, char **argv, char **envp){
 		}else if(strcmp(argv[a], "-finvert-hl") == 0){
 			funge_config.inverthl = true;
 		}else if(strncmp(argv[a], "-ftopo=", 7) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=')+1;
 			if(strcmp(arg, "torus") == 0){
 				funge_config.topo = TOPO_TORUS;
 			}else if(strcmp(arg, "lahey") == 0){
@@ -176,8 +174,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fstrings=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=')+1;
 			if(strcmp(arg, "multispace") == 0){
 				funge_config.strings = STRING_MULTISPACE;
 			}else if(strcmp(arg, "sgml") == 0){
@@ -189,8 +186,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fcells=", 8) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=')+1;
 			if(strcmp(arg, "char") == 0){
 				funge_config.cells = CELL_CHAR;
 			}else if(strcmp(arg, "int") == 0){
@@ -200,8 +196,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fthreads=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = std::strchr(argv[a], '=')+1;
 			if(strcmp(arg, "native") == 0){
 				funge_config.threads = THREAD_NATIVE;
 			}else if(strcmp(arg, "funge") == 0){
-- 
2.43.0


From baf0b5f81dabe4bd91d0a6d444b48a350059fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 17/85] fix: FPSP reads and writes only the bytes of a float

---
 src/fingerprint/include/FingerprintFloat.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 4f834ab..11b1962 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,7 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstring>
 #include <iomanip>
 
 namespace Funge {
@@ -141,11 +142,15 @@ class FingerprintFloat : public Fingerprint {
 
 	private:
 		T stackToT(stack_t n){
-			return *reinterpret_cast<T*>(&n);
+			T f;
+			std::memcpy(&f, &n, sizeof(f));
+			return f;
 		}
 
 		stack_t TToStack(T n){
-			return *reinterpret_cast<stack_t*>(&n);
+			stack_t s = 0;
+			std::memcpy(&s, &n, sizeof(n));
+			return s;
 		}
 };
 
-- 
2.43.0


From 0ba2052b1380a1db89638f437c0cce18174568f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 18/85] fix: FPSP and FPDP R reflect on text that is not a
 number

---
 src/fingerprint/include/FingerprintFloat.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 11b1962..7d21a7d 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,7 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cstdlib>
 #include <cstring>
 #include <iomanip>
 
@@ -103,7 +104,11 @@ class FingerprintFloat : public Fingerprint {
 				} break;
 				case 'R':{
 					std::string s = popString(stack.top());
-					double d = std::stod(s);
+					char* end = nullptr;
+					double d = std::strtod(s.c_str(), &end);
+					if(end == s.c_str()){
+						return ERROR_UNSPEC;
+					}
 					T n = static_cast<T>(d);
 					stack.top().push(TToStack(n));
 				} break;
-- 
2.43.0


From ecbb1d3df810054a741987bf0c76cb8926493201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 19/85] fix: stack rolls do not overflow the C++ stack for
 large counts

---
 src/fingerprint/FingerprintDynamic.cpp | 6 +++++-
 src/fingerprint/FingerprintFRTH.cpp    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintDynamic.cpp b/src/fingerprint/FingerprintDynamic.cpp
index 41138b7..9bba3a1 100644
--- a/src/fingerprint/FingerprintDynamic.cpp
+++ b/src/fingerprint/FingerprintDynamic.cpp
@@ -69,7 +69,11 @@ FungeError FingerprintDynamic::execute(inst_t cmd){
 				if(u < 0){
 					count = -u;
 				}
-				stack_t pops[count+1];
+				if(count < 0){
+					ret = ERROR_UNSPEC;
+					break;
+				}
+				std::vector<stack_t> pops(count+1);
 				for(stack_t i = 0; i <= count; ++i){
 					pops[i] = stack.top().pop();
 				}
diff --git a/src/fingerprint/FingerprintFRTH.cpp b/src/fingerprint/FingerprintFRTH.cpp
index 6555983..205c153 100644
--- a/src/fingerprint/FingerprintFRTH.cpp
+++ b/src/fingerprint/FingerprintFRTH.cpp
@@ -25,7 +25,11 @@ FungeError FingerprintFRTH::execute(inst_t cmd){
 			if(u < 0){
 				count = -u;
 			}
-			stack_t pops[count+1];
+			if(count < 0){
+				ret = ERROR_UNSPEC;
+				break;
+			}
+			std::vector<stack_t> pops(count+1);
 			for(stack_t i = 0; i <= count; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From d57c439ca1b741ae43db40d99775e16889e28f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 20/85] fix: SUBR C and R accept any count

---
 src/fingerprint/FingerprintSUBR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..e2b11f3 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		case 'C':{
 			stack_t n = stack.top().pop();
 			Vector va = popVector(runner);
-			stack_t pops[n];
+			std::vector<stack_t> pops(std::max<stack_t>(n, 0));
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
@@ -50,7 +50,7 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
-			stack_t pops[n];
+			std::vector<stack_t> pops(std::max<stack_t>(n, 0));
 			for(stack_t i = 0; i < n; ++i){
 				pops[i] = stack.top().pop();
 			}
-- 
2.43.0


From b35ec2942b26fa15bd54f851343561e9808caab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 21/85] fix: shifting or reversing an empty or large stack
 stays in bounds

---
 src/FishStrategy.cpp                | 15 ++++++++++++---
 src/fingerprint/FingerprintFISH.cpp | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..4d991a0 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -314,7 +314,10 @@ FungeError FishStrategy::instructionLength(){
 FungeError FishStrategy::instructionShiftLeft(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	if(len == 0){
+		return ERROR_NONE;
+	}
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
@@ -328,7 +331,10 @@ FungeError FishStrategy::instructionShiftLeft(){
 FungeError FishStrategy::instructionShiftRight(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	if(len == 0){
+		return ERROR_NONE;
+	}
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
@@ -342,7 +348,10 @@ FungeError FishStrategy::instructionShiftRight(){
 FungeError FishStrategy::instructionReverse(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	if(len == 0){
+		return ERROR_NONE;
+	}
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..9430259 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -67,7 +67,10 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			if(len == 0){
+				break;
+			}
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
@@ -98,7 +101,10 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			if(len == 0){
+				break;
+			}
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
@@ -110,7 +116,10 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Reverse Stack
 		case 'S':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			if(len == 0){
+				break;
+			}
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
-- 
2.43.0


From 696778bbe83285755ebfd64106448ae91628ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 22/85] fix: BASE prints negative numbers

---
 src/fingerprint/FingerprintBASE.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..4b57b64 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -106,9 +106,13 @@ void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 }
 
 void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
-	stack_t digit = num % base;
-	stack_t next = num / base;
-	if(next > 0){
+	if(num < 0 && low){
+		std::cout << '-';
+	}
+	// Work on the magnitude, one digit at a time, so that the least cell is fine.
+	stack_t digit = std::abs(num % static_cast<stack_t>(base));
+	stack_t next = num / static_cast<stack_t>(base);
+	if(next != 0){
 		printBase(next, base, false);
 	}
 	if(base <= sizeof(digit_map)){
-- 
2.43.0


From 990daf1f5cd5dfc9dabc4c54b8183a116de4f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 23/85] fix: BASE I accepts exactly the digits of the base, in
 either case

---
 src/fingerprint/FingerprintBASE.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 4b57b64..5ff2226 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -143,22 +143,22 @@ stack_t FingerprintBASE::readNum(unsigned int base) const{
 }
 
 bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
-	char digit = str[0];
-	bool found = false;
 	if(base <= 36){
 		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
 	}
-	for(size_t i = 0; i <= base; ++i){
-		if(digit_map[i] == digit){
-			*num = (*num*base) + i;
-			found = true;
+	for(char digit : str){
+		bool found = false;
+		for(size_t i = 0; i < base; ++i){
+			if(digit_map[i] == digit){
+				*num = (*num*base) + i;
+				found = true;
+				break;
+			}
+		}
+		if(!found){
 			break;
 		}
 	}
-	if(found && str.size() > 1){
-		str.erase(0, 1);
-		readBase(str, num, base);
-	}
 	return true;
 }
 
-- 
2.43.0


From d72956f2b17ba446b6e82d75d55ccce390594eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 24/85] fix: BASE prints digit 83 of base 85 as }

---
 src/fingerprint/FingerprintBASE.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 5ff2226..6e51b72 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -49,7 +49,7 @@ const char FingerprintBASE::base85[85] = {
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
 	'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
 	'!', '#', '$', '%', '&', '(', ')', '*', '+', '-', ';', '<',
-	'=', '>', '?', '@', '^', '_', '`', '{', '|', '{', '~'
+	'=', '>', '?', '@', '^', '_', '`', '{', '|', '}', '~'
 };
 
 FingerprintBASE::FingerprintBASE(FungeRunner& r) :
-- 
2.43.0


From 4121ca846f1f6e9d80df763b88f87fa158d68d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 25/85] fix: STRN V handles every cell value and reflects on
 other text

---
 src/fingerprint/FingerprintSTRN.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..c0a3601 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -6,6 +6,8 @@
 
 #include "FingerprintSTRN.h"
 #include "FungeUtilities.h"
+#include <cerrno>
+#include <cstdlib>
 
 namespace Funge {
 
@@ -110,7 +112,14 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'V':{
 			std::string str = popString(stack.top());
-			stack.top().push(std::stoi(str));
+			char* end = nullptr;
+			errno = 0;
+			stack_t n = std::strtoll(str.c_str(), &end, 10);
+			if(end == str.c_str() || errno == ERANGE){
+				ret = ERROR_UNSPEC;
+				break;
+			}
+			stack.top().push(n);
 		} break;
 		default:
 			ret = ERROR_UNIMP;
-- 
2.43.0


From 256c856813191e6becbd5cf7cb014ab11d2d10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 26/85] fix: STRN G reflects when the string has no end

---
 src/fingerprint/FingerprintSTRN.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index c0a3601..50ce02c 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -46,9 +46,14 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va); va += Vector{1}){
+			for( ; field.get(va) && va[0] <= field.max(0); va += Vector{1}){
 				str += field.get(va);
 			}
+			if(field.get(va)){
+				// There is no terminator
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			pushString(stack.top(), str);
 		} break;
 		case 'I':{
-- 
2.43.0


From 51bbc4bf6f454f2407009f0c2878e524593465c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 27/85] fix: DIRF obeys -fno-filesystem

---
 src/fingerprint/FingerprintDIRF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..6e0badd 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintDIRF.h"
+#include "FungeUniverse.h"
 #include "FungeUtilities.h"
 #include<filesystem>
 
@@ -16,6 +17,9 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	if(!runner.getUniverse().allowFilesystem()){
+		return ERROR_NOTAVAIL;
+	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-- 
2.43.0


From 4f4f73dc6dbd365ecd2ca4cee03a468cb11d8632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 28/85] fix: DIRF reflects when the directory operation fails

---
 src/fingerprint/FingerprintDIRF.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 6e0badd..41afd54 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -20,23 +20,24 @@ FungeError FingerprintDIRF::execute(inst_t cmd){
 	if(!runner.getUniverse().allowFilesystem()){
 		return ERROR_NOTAVAIL;
 	}
+	std::error_code error;
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
+			if(std::filesystem::is_directory(dir, error)){
+				std::filesystem::current_path(dir, error);
 			}else{
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::filesystem::create_directory(dir, error);
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
+			if(std::filesystem::is_directory(dir, error)){
+				std::filesystem::remove(dir, error);
 			}else{
 				ret = ERROR_UNSPEC;
 			}
@@ -44,6 +45,9 @@ FungeError FingerprintDIRF::execute(inst_t cmd){
 		default:
 			ret = ERROR_UNIMP;
 	}
+	if(error){
+		ret = ERROR_UNSPEC;
+	}
 	return ret;
 }
 
-- 
2.43.0


From c7c71392ae8cfd2dc34f09fc7478273c9e823f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 29/85] fix: NFUN X, Y and Z reflect on impossible dimensions

---
 src/fingerprint/FingerprintNFUN.cpp       | 9 +++++++++
 src/fingerprint/include/FingerprintNFUN.h | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index fcd6428..a30f08d 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -75,6 +75,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
+			if(n < 0 || n >= MAX_DIMENSIONS){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			if(stack.top().pop() == 0){
 				v.set(n, 1);
@@ -86,6 +89,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
+			if(n < 0 || n >= MAX_DIMENSIONS){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
@@ -93,6 +99,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
+			if(n < 0 || n >= MAX_DIMENSIONS){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
diff --git a/src/fingerprint/include/FingerprintNFUN.h b/src/fingerprint/include/FingerprintNFUN.h
index 510b581..ef3ae0e 100644
--- a/src/fingerprint/include/FingerprintNFUN.h
+++ b/src/fingerprint/include/FingerprintNFUN.h
@@ -16,6 +16,9 @@ class FingerprintNFUN : public Fingerprint {
 		virtual ~FingerprintNFUN() = default;
 		
 		virtual FungeError execute(inst_t cmd) override;
+	
+	private:
+		static const stack_t MAX_DIMENSIONS = 65536;
 };
 
 }
-- 
2.43.0


From 5736e9f1713f7feca66a58c33563e794083a143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 30/85] fix: NFUN X, Y and Z raise the dimensions to include
 the axis they move along

---
 src/fingerprint/FingerprintNFUN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index a30f08d..7a8f826 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -85,7 +85,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 				v.set(n, -1);
 			}
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
@@ -95,7 +95,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
@@ -105,7 +105,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n+1;
 		} break;
 		default:
 			return ERROR_UNIMP;
-- 
2.43.0


From c8d53255bb7ce1490f1aeb4da381771a8e362723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 31/85] fix: TOYS T checks the dimension before using it

---
 src/fingerprint/FingerprintTOYS.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..d2e7bce 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -161,13 +161,10 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		} break;
 		case 'T':{
 			size_t n = static_cast<size_t>(stack.top().pop());
-			Vector v;
-			if(stack.top().pop() == 0){
-				v.set(n, 1);
-			}else{
-				v.set(n, -1);
-			}
+			stack_t dir = stack.top().pop();
 			if(runner.getUniverse().dimensions() > n){
+				Vector v;
+				v.set(n, (dir == 0) ? 1 : -1);
 				ip.setDelta(v);
 			}else{
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From 38c8a6fbe583fc7b4952d95faaa0b63797c891d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 32/85] fix: BITW and TOYS shifts are defined for any distance

---
 src/fingerprint/FingerprintBITW.cpp |  5 +++--
 src/fingerprint/FingerprintTOYS.cpp |  7 +------
 src/util/FungeUtilities.cpp         | 12 ++++++++++++
 src/util/include/FungeUtilities.h   |  8 ++++++++
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/fingerprint/FingerprintBITW.cpp b/src/fingerprint/FingerprintBITW.cpp
index b8b99d7..c7bce02 100644
--- a/src/fingerprint/FingerprintBITW.cpp
+++ b/src/fingerprint/FingerprintBITW.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintBITW.h"
+#include "FungeUtilities.h"
 
 namespace Funge {
 
@@ -22,7 +23,7 @@ FungeError FingerprintBITW::execute(inst_t cmd){
 		case 'L':{
 			stack_t a = stack.top().pop();
 			stack_t b = stack.top().pop();
-			stack.top().push(b << a);
+			stack.top().push(shiftLeft(b, a));
 		} break;
 		case 'N':{
 			stack_t a = stack.top().pop();
@@ -36,7 +37,7 @@ FungeError FingerprintBITW::execute(inst_t cmd){
 		case 'R':{
 			stack_t a = stack.top().pop();
 			stack_t b = stack.top().pop();
-			stack.top().push(b >> a);
+			stack.top().push((a < -63) ? 0 : shiftLeft(b, -a));
 		} break;
 		case 'X':{
 			stack_t a = stack.top().pop();
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index d2e7bce..6b4b309 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -77,12 +77,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'H':{
 			stack_t b = stack.top().pop();
 			stack_t a = stack.top().pop();
-			if(b > 0){
-				a <<= b;
-			}else{
-				a >>= -b;
-			}
-			stack.top().push(a);
+			stack.top().push(shiftLeft(a, b));
 		} break;
 		case 'I':{
 			stack.top().push(stack.top().pop()+1);
diff --git a/src/util/FungeUtilities.cpp b/src/util/FungeUtilities.cpp
index 9b14794..096ceb3 100644
--- a/src/util/FungeUtilities.cpp
+++ b/src/util/FungeUtilities.cpp
@@ -62,4 +62,16 @@ std::string popString(Stack& stack){
 	return ret;
 }
 
+stack_t shiftLeft(stack_t value, stack_t n){
+	const stack_t bits = sizeof(stack_t)*8;
+	if(n >= bits){
+		return 0;
+	}else if(n >= 0){
+		return static_cast<stack_t>(static_cast<uint64_t>(value) << n);
+	}else if(n > -bits){
+		return value >> -n;
+	}
+	return (value < 0) ? -1 : 0;
+}
+
 }
diff --git a/src/util/include/FungeUtilities.h b/src/util/include/FungeUtilities.h
index 697a394..f682510 100644
--- a/src/util/include/FungeUtilities.h
+++ b/src/util/include/FungeUtilities.h
@@ -52,4 +52,12 @@ size_t pushString(Stack& stack, const std::string& str);
  */
 std::string popString(Stack& stack);
 
+/**
+ * Shift a value left, or right if the distance is negative.
+ * @param value Value to shift.
+ * @param n Distance to shift.
+ * @return Shifted value, any distance is allowed.
+ */
+stack_t shiftLeft(stack_t value, stack_t n);
+
 }
-- 
2.43.0


From a6f1a7604305766d842b386b0e4acfcd07bcdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 33/85] fix: FIXP D accepts negative and large limits

---
 src/fingerprint/FingerprintFIXP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintFIXP.cpp b/src/fingerprint/FingerprintFIXP.cpp
index e26854c..f124c48 100644
--- a/src/fingerprint/FingerprintFIXP.cpp
+++ b/src/fingerprint/FingerprintFIXP.cpp
@@ -126,7 +126,7 @@ double FingerprintFIXP::radToDeg(double deg){
 }
 
 stack_t FingerprintFIXP::random(stack_t max){
-	std::uniform_int_distribution<> dis(0, max);
+	std::uniform_int_distribution<stack_t> dis(std::min<stack_t>(0, max), std::max<stack_t>(0, max));
 	return dis(gen);
 }
 
-- 
2.43.0


From fbc2a10317ed855d8dd15ce041209bfaa4707ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 34/85] fix: loading DBUG binds its instructions

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..a3ef965 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -17,6 +17,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 
 void FingerprintDBUG::activate(){
 	dbg = &runner.getUniverse().getDebugger();
+	Fingerprint::activate();
 }
 
 FungeError FingerprintDBUG::execute(inst_t cmd){
-- 
2.43.0


From 8b5dd35429754931d46dcc1770701f8635ff8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 35/85] fix: unloading a fingerprint that is not loaded
 reflects

---
 src/FingerprintStrategy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FingerprintStrategy.cpp b/src/FingerprintStrategy.cpp
index d9e25a6..5fc583a 100644
--- a/src/FingerprintStrategy.cpp
+++ b/src/FingerprintStrategy.cpp
@@ -34,6 +34,7 @@
 #include "FingerprintSUBR.h"
 #include "FingerprintTOYS.h"
 #include "FungeUniverse.h"
+#include <algorithm>
 #include <filesystem>
 
 namespace Funge {
@@ -132,7 +133,7 @@ bool FingerprintStrategy::load(uint64_t fingerprint){
 
 bool FingerprintStrategy::unload(uint64_t fingerprint){
 	auto found = available.find(fingerprint);
-	if(found != available.cend()){
+	if(found != available.cend() && std::find(loaded.cbegin(), loaded.cend(), fingerprint) != loaded.cend()){
 		for(auto i : found->second->instructions()){
 			runner.popSemantic(i);
 		}
-- 
2.43.0


From f2d4c1395aba488ce50631b804e2bad5d90cc856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 36/85] fix: BeQunge and funge-lib files have the dimensions
 they state

---
 src/Field.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index d3ae151..967e576 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -32,9 +32,6 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
-		dimensions = maxs.size();
-	}
 }
 
 Field::Field(size_t dim, FungeCell csize) :
-- 
2.43.0


From 6d1b1da47e16e40c81ce21f2792a082b57e44ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 37/85] fix: stack operations use the selected stack and never
 one below the last

---
 src/FishStrategy.cpp       |  5 +++--
 src/StackStack.cpp         | 17 +++++++++++------
 src/StarfishStrategy.cpp   |  3 +++
 src/Unefunge98Strategy.cpp |  4 ++--
 src/include/StackStack.h   |  6 ++++++
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 4d991a0..60f5b8e 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -375,8 +375,9 @@ FungeError FishStrategy::instructionCreateStack(){
 }
 
 FungeError FishStrategy::instructionRemoveStack(){
-	check_selected(selected);
-	check_selected(selected+1);
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	while(stack.top().size() > 0){
 		push(SECOND, pop(TOP));
 	}
diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index ad08948..58e474f 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -58,14 +58,14 @@ const Stack& StackStack::at(size_t x) const{
 }
 
 void StackStack::pop(){
-	Stack* old = stack.back();
-	stack.pop_back();
-	delete old;
+	remove(0);
+	if(select > 0 && select >= stack.size()){
+		--select;
+	}
 }
 
 void StackStack::push(){
-	stack.push_back(new Stack());
-	stack.back()->setMode(mode);
+	insert(0);
 }
 
 void StackStack::insert(size_t pos){
@@ -77,10 +77,15 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-1-pos-select;
+	delete *iter;
 	stack.erase(iter);
 }
 
+bool StackStack::hasSecond() const{
+	return select+1 < stack.size();
+}
+
 size_t StackStack::size() const{
 	return stack.size();
 }
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..dcd9a47 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -64,6 +64,9 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index e8a6b90..c586c96 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -166,7 +166,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -213,7 +213,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 2bd50bd..776b0ad 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -76,6 +76,12 @@ class StackStack {
 		 */
 		const Stack& second() const;
 
+		/**
+		 * Check if there is a stack below the selected stack.
+		 * @return True if second() exists.
+		 */
+		bool hasSecond() const;
+
 		/**
 		 * Get the selected Stack.
 		 * @return Selected Stack.
-- 
2.43.0


From b65f0785244955b81dd06ff02d20c62d891bfb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 38/85] fix: ><> remainder by -1 does not trap

---
 src/FishStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 60f5b8e..bfd9a33 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,7 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	push(TOP, x == -1 ? 0 : y % x);
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From a9b80caeb27ed073d0fe999e6eba4d7980d0632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 39/85] fix: ><> register gives its value back

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index bfd9a33..704639c 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -448,6 +448,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From c446080c5c52989ab90cf370a911051ddaa13c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 40/85] fix: ><> always has a register

---
 src/FishStrategy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 704639c..294e45e 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -383,6 +383,9 @@ FungeError FishStrategy::instructionRemoveStack(){
 	}
 	stack.pop();
 	regs.pop();
+	if(regs.empty()){
+		regs.push({false, 0});
+	}
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From 655045c01bf76f6d3f65856093599b08b7d45304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 41/85] fix: IIPC A reflects for an original IP and outlives
 the ancestor

---
 src/FungeRunner.cpp                 | 13 ++++++++-----
 src/fingerprint/FingerprintIIPC.cpp | 11 ++++++++---
 src/include/FungeRunner.h           |  5 +++--
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 13ca8ed..f6d19b6 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -25,7 +25,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	hasParent(false),
+	parent(0),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -43,7 +44,8 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	hasParent(true),
+	parent(r.id),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -61,7 +63,8 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	hasParent(true),
+	parent(runner.id),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -248,8 +251,8 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
-	return parent;
+const size_t* FungeRunner::getParentID() const{
+	return hasParent ? &parent : nullptr;
 }
 
 }
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..074e085 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -18,9 +18,14 @@ FingerprintIIPC::FingerprintIIPC(FungeRunner& r) :
 FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
-		case 'A':
-			stack.top().push(runner.getParent()->getID());
-			break;
+		case 'A':{
+			const size_t* parent = runner.getParentID();
+			if(parent == nullptr){
+				ret = ERROR_UNSPEC;
+			}else{
+				stack.top().push(*parent);
+			}
+		} break;
 		case 'D':{
 			size_t age = stack.top().age();
 			if(dormant){
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..1e449f4 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -54,7 +54,7 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		const size_t* getParentID() const;
 	
 	private:
 		static size_t count;
@@ -63,7 +63,8 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		bool hasParent;
+		size_t parent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From 6e30ba2d63bd4c8b3eb6ee66289ba5fd9e7d2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 42/85] fix: PERL code reaches perl unchanged by the shell

---
 src/fingerprint/FingerprintPERL.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index 77eda37..cc2eee0 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -7,7 +7,6 @@
 #include "FingerprintPERL.h"
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
-#include <iomanip>
 
 namespace Funge {
 
@@ -44,10 +43,16 @@ FungeError FingerprintPERL::execute(inst_t cmd){
 }
 
 int FingerprintPERL::perl(const std::string& code){
-	std::string cmd = std::string("exit(eval{") + code + std::string("})");
-	std::stringstream sq;
-	sq << std::quoted(cmd);
-	cmd = std::string("perl -e ") + sq.str();
+	std::string cmd = std::string("perl -e 'exit(eval{");
+	for(char c : code){
+		// Nothing but the quote itself is special to the shell here
+		if(c == '\''){
+			cmd += "'\\''";
+		}else{
+			cmd += c;
+		}
+	}
+	cmd += "})'";
 	return system(cmd.c_str()) >> 8;
 }
 
-- 
2.43.0


From a2d7a2d787f7bbe773bbd2a37544f9a5fbaefbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 43/85] fix: FPRT uses only formats that fit its argument

---
 src/fingerprint/FingerprintFPRT.cpp | 59 ++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintFPRT.cpp b/src/fingerprint/FingerprintFPRT.cpp
index 892a258..72ed053 100644
--- a/src/fingerprint/FingerprintFPRT.cpp
+++ b/src/fingerprint/FingerprintFPRT.cpp
@@ -6,6 +6,8 @@
 
 #include "FingerprintFPRT.h"
 #include "FungeUtilities.h"
+#include <algorithm>
+#include <cstring>
 
 namespace Funge {
 
@@ -13,6 +15,39 @@ FingerprintFPRT::FingerprintFPRT(FungeRunner& r) :
 	Fingerprint(r, {'D', 'F', 'I', 'L', 'S'})
 {}
 
+/**
+ * Check that a format has at most one conversion, which is of the expected kind, and set its length modifier.
+ * @param fmt Format string.
+ * @param conversions Acceptable conversions.
+ * @param length Length modifier to use.
+ * @return True if the format can be used.
+ */
+static bool checkFormat(std::string& fmt, const std::string& conversions, const std::string& length){
+	bool found = false;
+	for(size_t i = 0; i < fmt.size(); ++i){
+		if(fmt[i] != '%'){
+			continue;
+		}
+		++i;
+		if(i < fmt.size() && fmt[i] == '%'){
+			continue;
+		}
+		size_t digits = i = std::min(fmt.find_first_not_of("-+ #0", i), fmt.size());
+		i = std::min(fmt.find_first_not_of("0123456789.", i), fmt.size());
+		if(found || i-digits > 8){
+			return false;
+		}
+		found = true;
+		size_t end = std::min(fmt.find_first_not_of("hlLqjzt", i), fmt.size());
+		if(end == fmt.size() || conversions.find(fmt[end]) == std::string::npos){
+			return false;
+		}
+		fmt.replace(i, end-i, length);
+		i += length.size();
+	}
+	return true;
+}
+
 FungeError FingerprintFPRT::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
@@ -20,6 +55,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			double f = *reinterpret_cast<double*>(&n);
+			if(!checkFormat(fmt, "aAeEfFgG", "")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
 			if(cnt < 0){
@@ -31,7 +70,13 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'F':{
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
-			double f = *reinterpret_cast<float*>(&n);
+			float x;
+			std::memcpy(&x, &n, sizeof(x));
+			double f = x;
+			if(!checkFormat(fmt, "aAeEfFgG", "")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
 			if(cnt < 0){
@@ -43,6 +88,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'I':{
 			stack_t i = stack.top().pop();
 			std::string fmt = popString(stack.top());
+			if(!checkFormat(fmt, "diouxX", "ll")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), i);
 			if(cnt < 0){
@@ -56,6 +105,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t h = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			stack_t n = (h << 32) | (l & 0xFFFFFFFF);
+			if(!checkFormat(fmt, "diouxX", "ll")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), n);
 			if(cnt < 0){
@@ -67,6 +120,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'S':{
 			std::string s = popString(stack.top());
 			std::string fmt = popString(stack.top());
+			if(!checkFormat(fmt, "s", "")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), s.c_str());
 			if(cnt < 0){
-- 
2.43.0


From 7537105a87248dbd058a5281bf286e1cc6a0f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 44/85] fix: i counts a last line without a line end

---
 src/Field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Field.cpp b/src/Field.cpp
index 967e576..e5a7839 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -86,6 +86,10 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 			last = i;
 		}
 	}
+	if(v[0] != start[0]){
+		// The last line had no line end
+		increment(1, v, max);
+	}
 	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
-- 
2.43.0


From 3275b7c3c95b3c550a2370434490b2add1b53576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 45/85] fix: i pushes the point it was given, as o expects it

---
 src/Unefunge98Strategy.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c586c96..ac1c3d0 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -247,10 +247,9 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::string filepath = popString(stack.top());
 		stack_t flags = stack.top().pop();
 		Vector va = popVector(runner);
-		va += ip.getStorage();
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
-- 
2.43.0


From 1429525d4d808e4c76f6eea70df4d8bdd0cc2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 46/85] fix: multiverse files may be in the working directory
 and have blank lines

---
 src/Funge.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index f69142c..1fbf439 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -20,7 +20,6 @@ namespace Funge{
 int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
-	std::string dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
@@ -33,16 +32,17 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		auto iss = std::istringstream(line);
 
 		std::string filename;
-		iss >> filename;
+		if(!(iss >> filename)){
+			continue;
+		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
-			path.assign(dir + path.preferred_separator + filename);
+			path = filepath.parent_path() / filename;
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		std::string arg;
+		while(iss >> arg){
 			cfg.args.push_back(arg);
 		}
 
-- 
2.43.0


From 6663df82be31c6cfcf9ddbeb57b84fc4bf779c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 47/85] fix: BeQunge and funge-lib bytes above 127 load as
 their own value

---
 src/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index e5a7839..d24b66d 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -148,7 +148,7 @@ void Field::parseBeq(std::istream& file){
 			for(size_t i = 0; i < lines; ++i){
 				std::getline(file, line);
 				for(auto c : line){
-					put(pos, c);
+					put(pos, static_cast<unsigned char>(c));
 					pos.set(0, pos.get(0)+1); // ++x
 				}
 				pos.set(0, origin.get(0)); // x=0
@@ -180,7 +180,7 @@ void Field::parseFungeLib(std::istream& file){
 		}
 
 		for(char i : line){
-			put(pos, i);
+			put(pos, static_cast<unsigned char>(i));
 			pos += Vector{1};
 		}
 		pos += Vector{0, 1};  // ++y
-- 
2.43.0


From 53da5cc83d02aca002965041f1f5b57d21014c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 48/85] fix: malformed numbers in BeQunge files are reported,
 not fatal

---
 src/Field.cpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index d24b66d..b49315d 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "Field.h"
+#include <charconv>
 #include <limits>
 #include <string>
 #include <sstream>
@@ -107,7 +108,14 @@ std::vector<std::string> splitString(std::string str, char delim){
 	return ret;
 }
 
+static bool parseNumber(const std::string& str, stack_t& num){
+	const char* end = str.data()+str.size();
+	auto res = std::from_chars(str.data(), end, num);
+	return res.ec == std::errc() && (res.ptr == end || *res.ptr == '\r');
+}
+
 void Field::parseBeq(std::istream& file){
+	const stack_t maxDimensions = 65536;
 	size_t dims = 0;
 	while(file.good()){
 		std::string line;
@@ -118,35 +126,52 @@ void Field::parseBeq(std::istream& file){
 		size_t dim = 0;
 		for(auto c : ctrl){
 			auto cmd = splitString(c, ' ');
+			stack_t num = 0;
+			if(cmd.size() < 2){
+				continue;
+			}
 			if(cmd[0] == "Version"){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
-				if(dims == 0){
-					dims = std::stoul(cmd[1]);
+				if(!parseNumber(cmd[1], num) || num < 0 || num > maxDimensions){
+					std::cerr << "Invalid dimensions" << std::endl;
+				}else if(dims == 0){
+					dims = num;
 				}else{
 					std::cerr << "Unexpected dimensions" << std::endl;
 				}
 			}else if(cmd[0] == "Lines"){
-				lines = std::stoul(cmd[1]);
+				if(parseNumber(cmd[1], num) && num >= 0){
+					lines = num;
+				}else{
+					std::cerr << "Invalid lines" << std::endl;
+				}
 			}else if(cmd[0] == "Origin"){
 				auto orig = splitString(cmd[1], ':');
 				for(dim = 0; dim < orig.size(); ++dim){
-					origin.set(dim, std::stoi(orig[dim]));
+					if(parseNumber(orig[dim], num)){
+						origin.set(dim, num);
+					}else{
+						std::cerr << "Invalid origin" << std::endl;
+					}
 				}
 			}else if(cmd[0] == "Coord"){
 				auto orig = splitString(cmd[1], ':');
 				size_t start = dim;
 				for( ; dim < orig.size()+start; ++dim){
 					if(orig[dim-start].size() > 0){
-						origin.set(dim, std::stoi(orig[dim-start]));
+						if(parseNumber(orig[dim-start], num)){
+							origin.set(dim, num);
+						}else{
+							std::cerr << "Invalid coordinate" << std::endl;
+						}
 					}
 				}
 			}
 		}
 		if(lines > 0){
 			Vector pos(origin);
-			for(size_t i = 0; i < lines; ++i){
-				std::getline(file, line);
+			for(size_t i = 0; i < lines && std::getline(file, line); ++i){
 				for(auto c : line){
 					put(pos, static_cast<unsigned char>(c));
 					pos.set(0, pos.get(0)+1); // ++x
-- 
2.43.0


From ee5f47a01dd4f9ab498e4bd4764e7e1bad00e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 49/85] fix: SUBR J continues at its target, like C

---
 src/fingerprint/FingerprintSUBR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index e2b11f3..3d63bb9 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -42,7 +42,7 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 			if(offset){
 				va += ip.getPos();
 			}
-			ip.setPos(va);
+			ip.setPos(va-Vector{1});
 			ip.setDelta(Vector{1});
 		} break;
 		case 'O':{
-- 
2.43.0


From f2d285894056955517a19c9336f4ed5e89f8254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 50/85] fix: a split IP's stack stack is in the same order as
 the original

---
 src/StackStack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 58e474f..582a4b7 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -28,8 +28,8 @@ StackStack::StackStack(const StackStack& orig) :
 	mode(),
 	stack()
 {
-	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+	for(size_t i = orig.size(); i > 0; --i){
+		stack.push_back(new Stack(orig.at(i-1)));
 	}
 }
 
-- 
2.43.0


From 0624952d7f45f2ac5fff5362bbff3580ece7bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 51/85] fix: o writes the whole line in Unefunge

---
 src/Field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index b49315d..4bbfe99 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -234,9 +234,9 @@ void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, b
 			}
 			v.set(1, v[1]+1);   // ++y
 			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			if(v[1] >= end[1]){
+				break;
+			}
 		}
 	}
 }
-- 
2.43.0


From a7ae270f6dc55693f3f3f8baa17f564ce6acb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 52/85] fix: ><> [ and ] move values in their order

---
 src/FishStrategy.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 294e45e..6a0ba2c 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -367,8 +367,12 @@ FungeError FishStrategy::instructionCreateStack(){
 
 	stack.insert(selected);
 	check_stack(second, x);
+	std::vector<double> temp(x);
 	for(size_t i = 0; i < x; ++i){
-		push(TOP, pop(SECOND));
+		temp[i] = pop(SECOND);
+	}
+	for(size_t i = x; i > 0; --i){
+		push(TOP, temp[i-1]);
 	}
 	regs.push({false, 0});
 	return ERROR_NONE;
@@ -378,8 +382,12 @@ FungeError FishStrategy::instructionRemoveStack(){
 	if(!stack.hasSecond()){
 		return ERROR_UNSPEC;
 	}
-	while(stack.top().size() > 0){
-		push(SECOND, pop(TOP));
+	std::vector<double> temp(stack.top().size());
+	for(size_t i = 0; i < temp.size(); ++i){
+		temp[i] = pop(TOP);
+	}
+	for(size_t i = temp.size(); i > 0; --i){
+		push(SECOND, temp[i-1]);
 	}
 	stack.pop();
 	regs.pop();
-- 
2.43.0


From e017d8053784191c15dd7c60668b342ec4005bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 53/85] fix: BASE prints the decimal digits of base 64

---
 src/fingerprint/FingerprintBASE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 6e51b72..7613e1e 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -38,7 +38,8 @@ const char FingerprintBASE::base64[64] = {
 	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L',
 	'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
-	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '+', '/'
+	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
+	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'
 };
 
 // RFC 1924 base85
-- 
2.43.0


From 6b14b6756b3238dbb3c00d7c96cfb2bf21ae581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 54/85] fix: the first q decides the exit code

---
 src/FungeUniverse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 707bdde..27a0b01 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -163,7 +163,10 @@ int FungeUniverse::get() const{
 
 void FungeUniverse::killAll(int ret){
 	std::lock_guard<std::mutex> guard(mutex);
-	exitcode = ret;
+	if(running){
+		// The first q decides
+		exitcode = ret;
+	}
 	for(auto runner : runners){
 		runner->getIP().stop();
 	}
-- 
2.43.0


From 04920889efbef1e3f71e9e6e1f3f72af6222c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 55/85] fix: -l looks at the whole fingerprint name

---
 src/Funge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 1fbf439..8e4a9be 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -207,7 +207,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-l", 2) == 0){
 			std::string fing(&argv[a][2]);
-			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), 0, [](uint64_t f, char c){return (f << 8) + c;});
+			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), static_cast<uint64_t>(0), [](uint64_t f, char c){return (f << 8) + c;});
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
-- 
2.43.0


From 43668bf23d5bb9a341b1ca24cf4e149a64ff337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 56/85] fix: MODU U of a multiple is zero

---
 fing/MODU.fl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fing/MODU.fl b/fing/MODU.fl
index b070f69..f9bc97a 100644
--- a/fing/MODU.fl
+++ b/fing/MODU.fl
@@ -5,8 +5,8 @@
 :#v_$$0@
   >%@
 =U
-:#v_$$0@    >\$\$@ >    v
-  >:2K\%:0`#^_\:0`#^_0\->+\$@
+:#v_$$0@      >\$\$@ >    v
+  >:2K\%:0\`!#^_\:0`#^_0\->+\$@
 Above matches CCBI, below matches rcfunge
 :#v_$$0@
   >:0`#v_0\->\:0`#v_0\->\%@
-- 
2.43.0


From 6b14014c713caa5b2acf90853cff626b1fe039c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 57/85] fix: created universes keep the capabilities of their
 creator

---
 src/fingerprint/FingerprintFungeLib.cpp | 4 ++++
 src/fingerprint/FingerprintMVRS.cpp     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 4e6384f..3811c00 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -43,6 +43,10 @@ FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::str
 			config.mode |= FUNGE_MODE_DEBUG;
 		}
 		config.fingerprints.push_back(FingerprintDynamic::ID);
+		const FungeUniverse& universe = r.getUniverse();
+		config.concurrent = universe.allowConcurrent();
+		config.execute = universe.allowExecute();
+		config.filesystem = universe.allowFilesystem();
 
 		fing = new FingerprintFungeLib(r, stream, config);
 	}
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 4b44a70..bb744e1 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,9 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				config.concurrent = universe.allowConcurrent();
+				config.execute = universe.allowExecute();
+				config.filesystem = universe.allowFilesystem();
 				multi.create(config);
 			}
 		} break;
-- 
2.43.0


From 5fc245c83911425cdf2461fbba1fe3ef4de19269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 58/85] fix: native threads: the universe ends with its last IP

---
 src/FungeUniverse.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 27a0b01..3c1da12 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -58,11 +58,14 @@ FungeUniverse::~FungeUniverse(){
 	monitorEnd(*this);
 #endif
 
-	std::lock_guard<std::mutex> guard(mutex);
+	std::unique_lock<std::mutex> guard(mutex);
 	while(threads.size() > 0){
 		std::thread* thread = threads.front();
+		threads.pop();
+		guard.unlock();
 		thread->join();
 		delete thread;
+		guard.lock();
 	}
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
@@ -99,6 +102,10 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runner->setMode(config.mode);
+	if(!running){
+		// The universe has ended already
+		runner->getIP().stop();
+	}
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
 		threads.push(thread);
@@ -122,6 +129,7 @@ void FungeUniverse::operator()(){
 				threads.pop();
 				delete thread;
 			}
+			cv.notify_all();
 			mutex.unlock();
 		}else{
 			mutex.lock();
-- 
2.43.0


From f0e5b481d6ab9ca0cbe7ac96b2bd27e0d2c8911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 59/85] fix: native threads: IP ids, lists and ends are
 synchronised

---
 src/FungeRunner.cpp              | 2 +-
 src/FungeUniverse.cpp            | 9 ++++++++-
 src/InstructionPointer.cpp       | 2 +-
 src/include/FungeRunner.h        | 3 ++-
 src/include/FungeUniverse.h      | 4 +++-
 src/include/InstructionPointer.h | 3 ++-
 6 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f6d19b6..e7df949 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -18,7 +18,7 @@
 
 namespace Funge {
 
-size_t FungeRunner::count = 0;
+std::atomic<size_t> FungeRunner::count = 0;
 
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta) :
 	id(count++),
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 3c1da12..30a51dc 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -162,7 +162,7 @@ void FungeUniverse::operator()(){
 
 void FungeUniverse::wait() const{
 	std::unique_lock<std::mutex> lock(mutex);
-	cv.wait(lock, [this]{return !isRunning();});
+	cv.wait(lock, [this]{return !isAlive();});
 }
 
 int FungeUniverse::get() const{
@@ -184,6 +184,11 @@ void FungeUniverse::killAll(int ret){
 }
 
 bool FungeUniverse::isRunning() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	return isAlive();
+}
+
+bool FungeUniverse::isAlive() const{
 	bool alive = (runners.size() > 0);
 	if(config.threads == THREAD_NATIVE){
 		alive = (threads.size() > 0);
@@ -220,6 +225,7 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 }
 
 FungeRunner* FungeUniverse::getRunner(size_t id){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
 		if(r->getID() == id){
 			return r;
@@ -271,6 +277,7 @@ bool FungeUniverse::isMode(FungeMode m) const {
 }
 
 void FungeUniverse::updateMode(){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
 		r->setMode(config.mode);
 	}
diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index de7fb2a..5df0e7a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -25,7 +25,7 @@ InstructionPointer::InstructionPointer(FungeRunner& r) :
 InstructionPointer::InstructionPointer(const InstructionPointer& orig, FungeRunner& r) :
 	observers(),
 	runner(r),
-	stopped(orig.stopped),
+	stopped(orig.stopped.load()),
 	pos(orig.pos),
 	delta(orig.delta),
 	storage(orig.storage)
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index 1e449f4..15713dc 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -12,6 +12,7 @@
 #include "FungeStateNormal.h"
 #include "FungeStateString.h"
 #include "FungeConfig.h"
+#include <atomic>
 #include <memory>
 
 namespace Funge {
@@ -57,7 +58,7 @@ class FungeRunner {
 		const size_t* getParentID() const;
 	
 	private:
-		static size_t count;
+		static std::atomic<size_t> count;
 
 		size_t id;
 		FungeUniverse* universe;
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..b82ed10 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -124,7 +125,7 @@ class FungeUniverse {
 		bool invertHL() const;
 	
 	private:
-		bool running;
+		std::atomic<bool> running;
 		int exitcode;
 		FungeConfig config;
 		FungeDebugger debug;
@@ -139,6 +140,7 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		bool isAlive() const;
 		void updateMode();
 
 		friend class FungeMultiverse;
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index c4c0d44..caa497a 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -8,6 +8,7 @@
 
 #include "Vector.h"
 #include "funge_types.h"
+#include <atomic>
 #include <functional>
 
 namespace Funge {
@@ -133,7 +134,7 @@ class InstructionPointer {
 	private:
 		std::vector<std::function<void(const Vector&)>> observers;
 		FungeRunner& runner;
-		bool stopped;
+		std::atomic<bool> stopped;
 		Vector pos;
 		Vector delta;
 		Vector storage;
-- 
2.43.0


From 9705ded8dde045991b089c17a86d10573962b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 60/85] fix: native threads: fungespace is synchronised

---
 src/Field.cpp       | 7 ++++++-
 src/include/Field.h | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 4bbfe99..7a68384 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -256,6 +256,7 @@ void Field::reset(dim_t d, Vector& v, const Vector& start, Vector& max){
 }
 
 dim_t Field::min(size_t d) const{
+	std::lock_guard<std::mutex> guard(mutex);
 	dim_t ret = 0;
 	if(d < mins.size()){
 		ret = mins[d];
@@ -264,6 +265,7 @@ dim_t Field::min(size_t d) const{
 }
 
 dim_t Field::max(size_t d) const{
+	std::lock_guard<std::mutex> guard(mutex);
 	dim_t ret = 0;
 	if(d < maxs.size()){
 		ret = maxs[d];
@@ -272,13 +274,14 @@ dim_t Field::max(size_t d) const{
 }
 
 void Field::put(const Vector& p, inst_t v){
+	callObservers(p, v);
+	std::lock_guard<std::mutex> guard(mutex);
 	while(maxs.size() < p.size()){
 		maxs.push_back(0);
 	}
 	while(mins.size() < p.size()){
 		mins.push_back(0);
 	}
-	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
 		if(find != field.end()){
@@ -329,6 +332,7 @@ void Field::put(const Vector& p, inst_t v){
 }
 
 size_t Field::size() const {
+	std::lock_guard<std::mutex> guard(mutex);
 	if(dimensions == 0){
 		return maxs.size();
 	}else{
@@ -338,6 +342,7 @@ size_t Field::size() const {
 
 inst_t Field::get(const Vector& p) const{
 	inst_t ret = ' ';
+	std::lock_guard<std::mutex> guard(mutex);
 	auto find = field.find(p);
 	if(find != field.end()){
 		ret = find->second;
diff --git a/src/include/Field.h b/src/include/Field.h
index b0b8474..7680bce 100644
--- a/src/include/Field.h
+++ b/src/include/Field.h
@@ -9,6 +9,7 @@
 #include "Vector.h"
 #include "funge_types.h"
 #include <iostream>
+#include <mutex>
 #include <unordered_map>
 #include <vector>
 #include <functional>
@@ -131,6 +132,7 @@ class Field {
 		std::vector<std::function<void(const Vector&, inst_t)>> observers;
 		size_t dimensions;
 		FungeCell cellsize;
+		mutable std::mutex mutex;
 		
 		void parseBeq(std::istream& file);
 		void parseFungeLib(std::istream& file);
-- 
2.43.0


From ee6b5e3eb9ec41b1161aff4821e05cfe4289f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 61/85] Monitor: observe the end of a universe once its native
 threads have ended

---
 src/FungeUniverse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 30a51dc..f268b13 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -54,9 +54,6 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 FungeUniverse::~FungeUniverse(){
 	killAll(1);
 	thread->join();
-#ifdef FUNGE_MONITOR
-	monitorEnd(*this);
-#endif
 
 	std::unique_lock<std::mutex> guard(mutex);
 	while(threads.size() > 0){
@@ -67,6 +64,9 @@ FungeUniverse::~FungeUniverse(){
 		delete thread;
 		guard.lock();
 	}
+#ifdef FUNGE_MONITOR
+	monitorEnd(*this);
+#endif
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
 		delete runner;
-- 
2.43.0


From f8a399acd3a25986cdf2e97ddd9bcc631e7bd7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 62/85] fix: native threads: the clock is read without shared
 state

---
 src/StarfishStrategy.cpp   | 15 +++++++++------
 src/Unefunge98Strategy.cpp |  7 ++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index dcd9a47..f3c4d66 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -133,28 +133,31 @@ FungeError StarfishStrategy::instructionSleep(){
 
 FungeError StarfishStrategy::instructionHour(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm dt;
+	localtime_r(&now, &dt);
 
 	check_selected(selected);
-	push(TOP, dt->tm_hour);
+	push(TOP, dt.tm_hour);
 	return ERROR_NONE;
 }
 
 FungeError StarfishStrategy::instructionMinute(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm dt;
+	localtime_r(&now, &dt);
 
 	check_selected(selected);
-	push(TOP, dt->tm_min);
+	push(TOP, dt.tm_min);
 	return ERROR_NONE;
 }
 
 FungeError StarfishStrategy::instructionSecond(){
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
+	std::tm dt;
+	localtime_r(&now, &dt);
 
 	check_selected(selected);
-	push(TOP, dt->tm_sec);
+	push(TOP, dt.tm_sec);
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ac1c3d0..ff5915b 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -387,10 +387,11 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	pushes += stack.top().push(stack.size());
 	// Time
 	std::time_t now = std::time(nullptr);
-	std::tm* dt = std::localtime(&now);
-	pushes += stack.top().push((dt->tm_hour << 16) + (dt->tm_min << 8) + dt->tm_sec);
+	std::tm dt;
+	localtime_r(&now, &dt);
+	pushes += stack.top().push((dt.tm_hour << 16) + (dt.tm_min << 8) + dt.tm_sec);
 	// Date
-	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
+	pushes += stack.top().push((dt.tm_year << 16) + ((dt.tm_mon+1) << 8) + dt.tm_mday);
 	// Greatest non-space
 	for(size_t i = 0; i < s; ++i){
 		pushes += stack.top().push(field.max(i)-field.min(i));
-- 
2.43.0


From a97c80728485531976e78d9d5b7b90217e37b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 63/85] fix: an empty multiverse ends successfully

---
 src/FungeMultiverse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..e6d61b7 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -76,7 +76,8 @@ int FungeMultiverse::waitAll(){
 		// Keep looping until all universes are dead
 	}while(running || count < universes.size());
 
-	return prime->get();
+	// A multiverse may have been empty
+	return (prime != nullptr) ? prime->get() : 0;
 }
 
 void FungeMultiverse::killAll(int ret){
-- 
2.43.0


From 5aef6acf85d1d37cc80bcde4e6f83cbfe3da95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 64/85] fix: MVRS: a transferred IP reads and writes the
 fungespace it is in

---
 src/Fingerprint.cpp                 |  1 -
 src/FishStrategy.cpp                |  4 ++--
 src/FungeStrategy.cpp               |  1 -
 src/Unefunge93Strategy.cpp          |  4 ++--
 src/Unefunge98Strategy.cpp          |  8 ++++----
 src/fingerprint/FingerprintJSTR.cpp |  4 ++--
 src/fingerprint/FingerprintORTH.cpp |  4 ++--
 src/fingerprint/FingerprintSTRN.cpp | 10 +++++-----
 src/fingerprint/FingerprintTOYS.cpp | 28 ++++++++++++++--------------
 src/include/Fingerprint.h           |  1 -
 src/include/FungeStrategy.h         |  1 -
 11 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/Fingerprint.cpp b/src/Fingerprint.cpp
index e17dc76..451132d 100644
--- a/src/Fingerprint.cpp
+++ b/src/Fingerprint.cpp
@@ -13,7 +13,6 @@ namespace Funge {
 
 Fingerprint::Fingerprint(FungeRunner& r, std::initializer_list<inst_t> in) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	inst(in)
diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 6a0ba2c..3ee7cf1 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -437,7 +437,7 @@ FungeError FishStrategy::instructionGet(){
 	check_stack(top, runner.getUniverse().dimensions());
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	push(TOP, static_cast<stack_t>(field.get(v+storage)));
+	push(TOP, static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
@@ -445,7 +445,7 @@ FungeError FishStrategy::instructionPut(){
 	check_stack(top, runner.getUniverse().dimensions()+1);
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	field.put(v+storage, pop(TOP));
+	runner.getField().put(v+storage, pop(TOP));
 	return ERROR_NONE;
 }
 
diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index b920e54..97eac41 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -11,7 +11,6 @@ namespace Funge {
 
 FungeStrategy::FungeStrategy(FungeRunner& r) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	rd(),
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 712cb98..407980a 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -259,14 +259,14 @@ FungeError Unefunge93Strategy::instructionNumOut(){
 FungeError Unefunge93Strategy::instructionGet(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	stack.top().push(static_cast<stack_t>(field.get(v+storage)));
+	stack.top().push(static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
 FungeError Unefunge93Strategy::instructionPut(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	field.put(v+storage, stack.top().pop());
+	runner.getField().put(v+storage, stack.top().pop());
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ff5915b..7349175 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -249,7 +249,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		Vector va = popVector(runner);
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
+			Vector vb = runner.getField().parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
@@ -273,7 +273,7 @@ FungeError Unefunge98Strategy::instructionFileOut(){
 		Vector vb = popVector(runner);
 		std::ofstream file(filepath);
 		if(!file.fail()){
-			field.dump(va, vb, file, !(flags & FILE_OUT_TEXT));
+			runner.getField().dump(va, vb, file, !(flags & FILE_OUT_TEXT));
 		}else{
 			ret = ERROR_UNSPEC;
 		}
@@ -394,11 +394,11 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	pushes += stack.top().push((dt.tm_year << 16) + ((dt.tm_mon+1) << 8) + dt.tm_mday);
 	// Greatest non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.max(i)-field.min(i));
+		pushes += stack.top().push(runner.getField().max(i)-runner.getField().min(i));
 	}
 	// Least non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.min(i));
+		pushes += stack.top().push(runner.getField().min(i));
 	}
 	// Storage Offset
 	pushes += pushVector(runner, ip.getStorage());
diff --git a/src/fingerprint/FingerprintJSTR.cpp b/src/fingerprint/FingerprintJSTR.cpp
index ccbd751..e7d0e95 100644
--- a/src/fingerprint/FingerprintJSTR.cpp
+++ b/src/fingerprint/FingerprintJSTR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector pos = va + ip.getStorage();
 			stack.top().push(0);
 			for( ; n > 0; --n){
-				stack.top().push(field.get(pos));
+				stack.top().push(runner.getField().get(pos));
 				pos += vd;
 			}
 		} break;
@@ -32,7 +32,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector vd = popVector(runner);
 			Vector pos = va + ip.getStorage();
 			for( ; n > 0; --n){
-				field.put(pos, stack.top().pop());
+				runner.getField().put(pos, stack.top().pop());
 				pos += vd;
 			}
 		} break;
diff --git a/src/fingerprint/FingerprintORTH.cpp b/src/fingerprint/FingerprintORTH.cpp
index b1361ec..acddaf8 100644
--- a/src/fingerprint/FingerprintORTH.cpp
+++ b/src/fingerprint/FingerprintORTH.cpp
@@ -29,7 +29,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t x = stack.top().pop();
 			stack_t y = stack.top().pop();
 			Vector v({x, y});
-			stack.top().push(field.get(v));
+			stack.top().push(runner.getField().get(v));
 		} break;
 		case 'O':{
 			stack_t a = stack.top().pop();
@@ -41,7 +41,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t y = stack.top().pop();
 			stack_t i = stack.top().pop();
 			Vector v({x, y});
-			field.put(v, static_cast<inst_t>(i));
+			runner.getField().put(v, static_cast<inst_t>(i));
 		} break;
 		case 'S':{
 			std::string str = popString(stack.top());
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 50ce02c..5bc16a5 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -46,10 +46,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va) && va[0] <= field.max(0); va += Vector{1}){
-				str += field.get(va);
+			for( ; runner.getField().get(va) && va[0] <= runner.getField().max(0); va += Vector{1}){
+				str += runner.getField().get(va);
 			}
-			if(field.get(va)){
+			if(runner.getField().get(va)){
 				// There is no terminator
 				ret = ERROR_UNSPEC;
 				break;
@@ -94,10 +94,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, c);
+				runner.getField().put(va, c);
 				va += Vector{1};
 			}
-			field.put(va, 0);
+			runner.getField().put(va, 0);
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 6b4b309..1d56ec6 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -60,7 +60,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, stack.top().pop());
+					runner.getField().put(dest + *range, stack.top().pop());
 				}
 			}
 		} break;
@@ -70,7 +70,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(size, Vector({0}));
 				for(range.begin(); *range != range.end(); ++range){
-					stack.top().push(field.get(src + *range));
+					stack.top().push(runner.getField().get(src + *range));
 				}
 			}
 		} break;
@@ -85,8 +85,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'J':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t ymin = field.min(1);
-				dim_t ymax = field.max(1);
+				dim_t ymin = runner.getField().min(1);
+				dim_t ymax = runner.getField().max(1);
 				dim_t x = ip.getPos().get(0);
 				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
 			}
@@ -101,7 +101,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			Vector delta = ip.getDelta();
 			delta.left();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'M':{
@@ -116,8 +116,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'O':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t xmin = field.min(0);
-				dim_t xmax = field.max(0);
+				dim_t xmin = runner.getField().min(0);
+				dim_t xmax = runner.getField().max(0);
 				dim_t y = ip.getPos().get(1);
 				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
 			}
@@ -134,13 +134,13 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			delta.reverse();
 			Vector v = ip.getPos() + delta;
 			stack_t a = stack.top().pop();
-			field.put(v, a);
+			runner.getField().put(v, a);
 		} break;
 		case 'R':{
 			Vector delta = ip.getDelta();
 			delta.right();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'S':{
@@ -150,7 +150,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, i);
+					runner.getField().put(dest + *range, i);
 				}
 			}
 		} break;
@@ -207,7 +207,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'W':{
 			Vector v = popVector(runner);
 			stack_t value = stack.top().pop();
-			stack_t cell = field.get(v);
+			stack_t cell = runner.getField().get(v);
 			if(cell < value){
 				stack.top().push(value);
 				pushVector(runner, v);
@@ -259,10 +259,10 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 		}
 		VectorRange range(start, end);
 		for(range.begin(); *range != range.end(); ++range){
-			inst_t i = field.get(src + *range);
-			field.put(dest + *range, i);
+			inst_t i = runner.getField().get(src + *range);
+			runner.getField().put(dest + *range, i);
 			if(move){
-				field.put(src + *range, ' ');
+				runner.getField().put(src + *range, ' ');
 			}
 		}
 	}
diff --git a/src/include/Fingerprint.h b/src/include/Fingerprint.h
index 95ad62b..ec8f5cf 100644
--- a/src/include/Fingerprint.h
+++ b/src/include/Fingerprint.h
@@ -24,7 +24,6 @@ class Fingerprint {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		std::vector<inst_t> inst;
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index ab1aec4..dda894c 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -27,7 +27,6 @@ class FungeStrategy {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		
-- 
2.43.0


From d22f659033443c2402f06275afa9196065a7b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 65/85] fix: MVRS: an IP is handed over after its tick and the
 process waits for it

---
 src/FungeMultiverse.cpp     | 19 +++++++++++++++----
 src/FungeRunner.cpp         |  6 +++++-
 src/FungeUniverse.cpp       | 32 +++++++++++++++++++++++++-------
 src/include/FungeUniverse.h |  8 ++++++++
 4 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e6d61b7..90b0a46 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -63,30 +63,40 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 int FungeMultiverse::waitAll(){
 	bool running = false;
 	size_t count = 0;
+	size_t arrivals = 0;
 	do{
 		running = false;
-		for(auto next : universes){
-			const FungeUniverse* uni = next.second;
+		arrivals = FungeUniverse::arrivals;
+		std::vector<const FungeUniverse*> current;
+		{
+			std::lock_guard<std::mutex> guard(mutex);
+			for(auto next : universes){
+				current.push_back(next.second);
+			}
+		}
+		count = current.size();
+		for(auto uni : current){
 			if(uni->isRunning()){
 				running = true;
 			}
 			uni->wait();
-			++count;
 		}
 		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+	}while(running || arrivals != FungeUniverse::arrivals || count < size());
 
 	// A multiverse may have been empty
 	return (prime != nullptr) ? prime->get() : 0;
 }
 
 void FungeMultiverse::killAll(int ret){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto next : universes){
 		next.second->killAll(ret);
 	}
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
@@ -101,6 +111,7 @@ std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse:
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index e7df949..d486a49 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -127,10 +127,14 @@ bool FungeRunner::isRunning() const {
 }
 
 void FungeRunner::operator()(){
-	while(!ip.isStopped()){
+	FungeUniverse& home = getUniverse();
+	while(!ip.isStopped() && &getUniverse() == &home){
 		tick();
 		std::this_thread::yield();
 	}
+	if(&getUniverse() != &home){
+		home.leave(this);
+	}
 }
 
 void FungeRunner::tick(){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index f268b13..080c23e 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -11,6 +11,8 @@
 
 namespace Funge {
 
+std::atomic<size_t> FungeUniverse::arrivals = 0;
+
 FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
@@ -20,6 +22,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	thread(nullptr),
 	threads(),
 	runners(),
+	leaving(0),
 	creator(nullptr),
 	semaphore(0),
 	mutex(),
@@ -40,6 +43,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	thread(nullptr),
 	threads(),
 	runners(),
+	leaving(0),
 	creator(nullptr),
 	semaphore(0),
 	mutex(),
@@ -91,16 +95,28 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 
 void FungeUniverse::transferRunner(FungeRunner* runner){
 	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+		// The universe it is in hands it over after its tick
 		runner->setUniverse(*this);
-		runner->setMode(config.mode);
-		runners.push_back(runner);
-		semaphore.release();
 	}
 }
 
+void FungeUniverse::leave(FungeRunner* runner){
+	debug.endThread(*runner);
+	{
+		std::lock_guard<std::mutex> guard(mutex);
+		runners.remove(runner);
+		// Stay alive until it has arrived
+		++leaving;
+	}
+	runner->getUniverse().addRunner(runner);
+	std::lock_guard<std::mutex> guard(mutex);
+	--leaving;
+	cv.notify_all();
+}
+
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
+	++arrivals;
 	runner->setMode(config.mode);
 	if(!running){
 		// The universe has ended already
@@ -142,8 +158,8 @@ void FungeUniverse::operator()(){
 				}
 				mutex.lock();
 
-				runners.pop_front();
 				if(&thread->getUniverse() == this){
+					runners.pop_front();
 					if(thread->isRunning()){
 						runners.push_back(thread);
 					}else{
@@ -152,7 +168,9 @@ void FungeUniverse::operator()(){
 						cv.notify_all();
 					}
 				}else{
-					cv.notify_all();
+					mutex.unlock();
+					leave(thread);
+					mutex.lock();
 				}
 			}
 			mutex.unlock();
@@ -189,7 +207,7 @@ bool FungeUniverse::isRunning() const{
 }
 
 bool FungeUniverse::isAlive() const{
-	bool alive = (runners.size() > 0);
+	bool alive = (runners.size() > 0 || leaving > 0);
 	if(config.threads == THREAD_NATIVE){
 		alive = (threads.size() > 0);
 	}
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index b82ed10..0487ff6 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -95,6 +95,12 @@ class FungeUniverse {
 		 */
 		void transferRunner(FungeRunner* runner);
 
+		/**
+		 * Hand a transferred runner over to the universe it is in now.
+		 * @param runner Runner that has left this universe.
+		 */
+		void leave(FungeRunner* runner);
+
 		/**
 		 * Determine how the universe was created.
 		 * @return runner that created the universe.
@@ -125,6 +131,7 @@ class FungeUniverse {
 		bool invertHL() const;
 	
 	private:
+		static std::atomic<size_t> arrivals;
 		std::atomic<bool> running;
 		int exitcode;
 		FungeConfig config;
@@ -133,6 +140,7 @@ class FungeUniverse {
 		std::thread* thread;
 		std::queue<std::thread*> threads;
 		std::list<FungeRunner*> runners;
+		size_t leaving;
 		FungeRunner* creator;
 		FungeSem semaphore;
 		mutable std::mutex mutex;
-- 
2.43.0


From c901fda8ff076c4c10747a510ea66df76402c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 66/85] fix: MVRS: B rejects dimensions and flags it cannot use

---
 src/fingerprint/FingerprintMVRS.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index bb744e1..68dfd79 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -11,6 +11,8 @@
 
 namespace Funge {
 
+static const stack_t modes = FUNGE_MODE_DEBUG | FUNGE_MODE_HOVER | FUNGE_MODE_INVERT | FUNGE_MODE_QUEUE | FUNGE_MODE_SWITCH | FUNGE_MODE_DIVE;
+
 FingerprintMVRS::FingerprintMVRS(FungeRunner& r) :
 	Fingerprint(r, {'B', 'C', 'F', 'G', 'J', 'N', 'P'})
 {}
@@ -23,14 +25,16 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 		case 'B':{
 			stack_t dim = stack.top().pop();
 			stack_t lng = stack.top().pop();
-			FungeMode flgs = static_cast<FungeMode>(stack.top().pop());
+			stack_t bits = stack.top().pop();
 			std::string name = popString(stack.top());
 			if(dim == 0){
 				dim = runner.getUniverse().dimensions();
 			}
-			if(flgs == 0){
+			FungeMode flgs = static_cast<FungeMode>(bits & modes);
+			if(bits == 0){
 				flgs = runner.getMode();
-			}else if((flgs & 0x1FF) != 0){
+			}
+			if((bits & 0x1FF) != 0 || dim < 0){
 				ret = ERROR_UNSPEC;
 				break;
 			}
-- 
2.43.0


From 3fad94f8a5b99bf042adc3145555e60bf0dccf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 67/85] fix: REFC: the references are shared by all threads

---
 src/fingerprint/FingerprintREFC.cpp       | 2 ++
 src/fingerprint/include/FingerprintREFC.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fingerprint/FingerprintREFC.cpp b/src/fingerprint/FingerprintREFC.cpp
index 0b2567f..eee2627 100644
--- a/src/fingerprint/FingerprintREFC.cpp
+++ b/src/fingerprint/FingerprintREFC.cpp
@@ -10,12 +10,14 @@
 namespace Funge {
 
 std::map<stack_t, Vector> FingerprintREFC::refc_map;
+std::mutex FingerprintREFC::refc_mutex;
 
 FingerprintREFC::FingerprintREFC(FungeRunner& r) :
 	Fingerprint(r, {'R', 'D'})
 {}
 
 FungeError FingerprintREFC::execute(inst_t cmd){
+	std::lock_guard<std::mutex> guard(refc_mutex);
 	switch(cmd){
 		case 'R':{
 			Vector v = popVector(runner);
diff --git a/src/fingerprint/include/FingerprintREFC.h b/src/fingerprint/include/FingerprintREFC.h
index 32929fc..19fc3cd 100644
--- a/src/fingerprint/include/FingerprintREFC.h
+++ b/src/fingerprint/include/FingerprintREFC.h
@@ -9,6 +9,7 @@
 #include "Fingerprint.h"
 #include "Vector.h"
 #include <map>
+#include <mutex>
 
 namespace Funge {
 
@@ -21,6 +22,7 @@ class FingerprintREFC : public Fingerprint {
 	
 	protected:
 		static std::map<stack_t, Vector> refc_map;
+		static std::mutex refc_mutex;
 };
 
 }
-- 
2.43.0


From 0241eff7371d091658230eba3d1d12f42c94b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 68/85] Monitor: observe the turns of the universes (guarded by
 FUNGE_MONITOR)

---
 src/FungeMultiverse.cpp    |  4 ++++
 src/FungeRunner.cpp        |  3 +++
 src/FungeUniverse.cpp      |  3 +++
 src/include/FungeMonitor.h | 16 ++++++++++++++++
 4 files changed, 26 insertions(+)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 90b0a46..f6e5565 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FungeMultiverse.h"
+#include "FungeMonitor.h"
 
 namespace Funge {
 
@@ -61,6 +62,9 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 }
 
 int FungeMultiverse::waitAll(){
+#ifdef FUNGE_MONITOR
+	monitorReady();
+#endif
 	bool running = false;
 	size_t count = 0;
 	size_t arrivals = 0;
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index d486a49..e9886dd 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -141,6 +141,9 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+#ifdef FUNGE_MONITOR
+		monitorTurn();
+#endif
 		inst_t i = ip.get();
 #ifdef FUNGE_MONITOR
 		monitorStep(*this, i);
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 080c23e..4eb3d5f 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -172,6 +172,9 @@ void FungeUniverse::operator()(){
 					leave(thread);
 					mutex.lock();
 				}
+#ifdef FUNGE_MONITOR
+				monitorRest(runners.size() > 0);
+#endif
 			}
 			mutex.unlock();
 		}
diff --git a/src/include/FungeMonitor.h b/src/include/FungeMonitor.h
index 29f2d5f..9d0d98d 100644
--- a/src/include/FungeMonitor.h
+++ b/src/include/FungeMonitor.h
@@ -18,6 +18,22 @@ class FungeUniverse;
  */
 void monitorStep(FungeRunner& runner, inst_t i);
 
+/**
+ * Called before a runner reads the instruction under its IP.
+ */
+void monitorTurn();
+
+/**
+ * Called when a universe is done with the tick of one of its runners.
+ * @param more true if it goes on with another runner.
+ */
+void monitorRest(bool more);
+
+/**
+ * Called when all universes of the command line exist.
+ */
+void monitorReady();
+
 /**
  * Called before a universe is torn down.
  */
-- 
2.43.0


From baf98ecc9c6ca9370288f12c7485208a87af2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 69/85] fix: end of command input ends the debugger

---
 src/Defunge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..1ed7272 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -97,7 +97,10 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			// No more commands
+			line = "quit";
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
-- 
2.43.0


From cea2d25d6ecdddc8dc9045e571510f2469bb0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 70/85] fix: quit in the debugger executes nothing more

---
 src/FungeRunner.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index e9886dd..b2772e7 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -141,6 +141,10 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+		if(ip.isStopped()){
+			// Quit in the debugger
+			break;
+		}
 #ifdef FUNGE_MONITOR
 		monitorTurn();
 #endif
-- 
2.43.0


From fbe2ebb7f3109c5300a02e43677ce157787ab7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 71/85] fix: the debugger prints the IPs and stacks it lists

---
 src/Defunge.cpp       | 7 +++++--
 src/include/Defunge.h | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 1ed7272..6274031 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -127,7 +127,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
@@ -214,7 +214,7 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	iss >> c;
 	if(c == 0){
 		for(size_t j = 0; j < stack->size(); ++j){
-			std::cout << "[0] ";
+			std::cout << "[" << j << "] ";
 			for(size_t i = stack->at(j).size(); i > 0; --i){
 				std::cout << stack->at(j).get(i) << " ";
 			}
@@ -223,6 +223,9 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
+		if(s >= stack->size()){
+			return DEFUNGE_RANGE;
+		}
 		std::cout << stack->at(s).get(c) << std::endl;
 	}
 	return DEFUNGE_OK;
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index ac12c48..ab71209 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -25,6 +25,7 @@ class Defunge {
 			DEFUNGE_OK,
 			DEFUNGE_BREAK,
 			DEFUNGE_NO_THREAD,
+			DEFUNGE_RANGE,
 		};
 
 		typedef Error (Defunge::*debugger_command_t)(std::istringstream&);
-- 
2.43.0


From 8ae65250a320d47b78f20799d809a6678a00459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 72/85] fix: reading an unfinished vector ends

---
 src/Vector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..5016121 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -172,13 +172,15 @@ std::ostream& operator<<(std::ostream& os, const Vector& rhs){
 std::istream& operator>>(std::istream& is, Vector& rhs){
 	rhs.values.clear();
 	char c;
-	is >> c;
+	if(!(is >> c)){
+		return is;
+	}
 	if(c == '('){
 		is >> c;
 		size_t d = 0;
 		dim_t v = 0;
 		bool neg = false;
-		while(c != ')'){
+		while(is && c != ')'){
 			if(isdigit(c)){
 				v = (v*10)+(c-'0');
 			}else if(c == ','){
-- 
2.43.0


From 27ce36571a024f7c5b81a6b403392aa855fa5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 73/85] fix: the debugger forgets IPs that have ended or left

---
 src/Defunge.cpp       | 10 +++++-----
 src/FungeDebugger.cpp | 23 +++++++++++++++++++----
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 6274031..49b7b8d 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -139,7 +139,7 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
+			if(t.second.runner != nullptr && t.second.runner->getIP().getPos() == pos){
 				std::cout << "\e[43;1m"; // Yellow background
 				color = true;
 				break;
@@ -272,7 +272,7 @@ Defunge::Error Defunge::threadCommand(std::istringstream& iss){
 	}
 	size_t thread = tid;
 	iss >> thread;
-	if(debugger->threads.contains(thread)){
+	if(debugger->threads.contains(thread) && debugger->threads[thread].runner != nullptr){
 		tid = thread;
 		runner = debugger->threads[tid].runner;
 	}
@@ -439,11 +439,11 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 		FungeUniverse* uni = multi[name];
 		if(uni != nullptr){
 			debugger = &uni->getDebugger();
-			if(debugger->threads.empty()){
+			auto last = debugger->threads.find(debugger->lastThread);
+			if(last == debugger->threads.end()){
 				runner = nullptr;
 			}else{
-				size_t id = debugger->lastThread;
-				runner = debugger->threads[id].runner;
+				runner = last->second.runner;
 			}
 		}
 	}
diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index a68401b..48e4518 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -29,6 +29,11 @@ void FungeDebugger::tick(FungeRunner& runner){
 		intro(runner);
 		size_t id = runner.getID();
 		auto found = threads.find(id);
+		if(found != threads.end() && found->second.state == FungeDebugger::STATE_END){
+			// It left and came back
+			threads.erase(found);
+			found = threads.end();
+		}
 		if(found == threads.end()){
 			threads.insert({id, Thread{
 				.runner = &runner,
@@ -73,13 +78,19 @@ void FungeDebugger::trap(FungeRunner& runner){
 void FungeDebugger::debugWrite(const Vector& pos, inst_t inst){
 	if(universe.isMode(FUNGE_MODE_DEBUG)){
 		if(watchpoints.contains(pos)){
-			threads[lastThread].state = STATE_BREAK;
-			intro(*threads[lastThread].runner);
+			auto writer = threads.find(lastThread);
+			bool here = (writer != threads.end() && writer->second.state != STATE_END);
+			if(here){
+				writer->second.state = STATE_BREAK;
+				intro(*writer->second.runner);
+			}
 			std::cout << "Watchpoint " << pos << std::endl;
 			inst_t old = universe.getField().get(pos);
 			std::cout << "Old value = (" << old  << ") \"" << static_cast<char>(old) << "\"" << std::endl;
 			std::cout << "New value = (" << inst << ") \"" << static_cast<char>(inst) << "\"" << std::endl;
-			Defunge::getInstance().debug(this, threads[lastThread].runner);
+			if(here){
+				Defunge::getInstance().debug(this, writer->second.runner);
+			}
 		}
 	}
 }
@@ -102,7 +113,11 @@ void FungeDebugger::addWatchpoint(const Vector& vec){
 }
 
 void FungeDebugger::endThread(const FungeRunner& runner){
-	threads[runner.getID()].state = STATE_END;
+	auto found = threads.find(runner.getID());
+	if(found != threads.end()){
+		found->second.state = STATE_END;
+		found->second.runner = nullptr;
+	}
 }
 
 void FungeDebugger::intro(FungeRunner& runner){
-- 
2.43.0


From a9c827229f466523e1d469147bc1bf6d1a35535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 74/85] fix: the debugger prints any plane of fungespace and
 ends

---
 src/Defunge.cpp       | 20 +++++++++++++-------
 src/include/Defunge.h |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 49b7b8d..b42f80e 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -8,6 +8,7 @@
 #include "FungeMultiverse.h"
 #include <mutex>
 #include <iostream>
+#include <algorithm>
 #include <sstream>
 
 namespace Funge {
@@ -131,11 +132,17 @@ void Defunge::printIP(const FungeRunner& r){
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
-void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
+Defunge::Error Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
+	const dim_t dims = std::max<dim_t>(2, dbg->universe.dimensions());
+	if(dim[0] < 0 || dim[0] >= dims || dim[1] < 0 || dim[1] >= dims || dim[0] == dim[1]){
+		return DEFUNGE_RANGE;
+	}
 	const Vector start = center-size;
 	const Vector end = center+size;
-	Vector pos = start;
-	while(pos <= end){
+	Vector pos = center;
+	pos.set(dim[0], start[dim[0]]);
+	pos.set(dim[1], start[dim[1]]);
+	while(pos[dim[0]] <= end[dim[0]] && pos[dim[1]] <= end[dim[1]]){
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
@@ -172,6 +179,7 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 			std::cout << std::endl;
 		}
 	}
+	return DEFUNGE_OK;
 }
 
 Defunge::Error Defunge::runCommand(std::istringstream& iss){
@@ -359,8 +367,7 @@ Defunge::Error Defunge::getCommand(std::istringstream& iss){
 	}
 	
 	const Field& field = debugger->universe.getField();
-	printField(debugger, field, v, s, d, ip);
-	return DEFUNGE_OK;
+	return printField(debugger, field, v, s, d, ip);
 }
 
 Defunge::Error Defunge::listCommand(std::istringstream& iss){
@@ -381,8 +388,7 @@ Defunge::Error Defunge::listCommand(std::istringstream& iss){
 	if(d.size() == 0){
 		d = {0,1};
 	}
-	printField(debugger, field, ip.getPos(), s, d, &ip);
-	return DEFUNGE_OK;
+	return printField(debugger, field, ip.getPos(), s, d, &ip);
 }
 
 Defunge::Error Defunge::breakCommand(std::istringstream& iss){
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index ab71209..fbb51dc 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -39,7 +39,7 @@ class Defunge {
 
 		void debugWrite(const Field& field, const Vector& pos, inst_t inst);
 		void printIP(const FungeRunner& ip);
-		void printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip);
+		Error printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip);
 
 		Error runCommand(std::istringstream& iss);
 		Error quitCommand(std::istringstream& iss);
-- 
2.43.0


From 92621eab5b1087c27fa9a2f6f8ebb485e56b9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 75/85] fix: DBUG acts on the debugger of the universe the IP
 is in

---
 src/fingerprint/FingerprintDBUG.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index a3ef965..6094d44 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -21,6 +21,8 @@ void FingerprintDBUG::activate(){
 }
 
 FungeError FingerprintDBUG::execute(inst_t cmd){
+	// The IP may have moved to another universe
+	dbg = &runner.getUniverse().getDebugger();
 	switch(cmd){
 		case 'A':{
 			Vector v = popVector(runner);
-- 
2.43.0


From 5a3b0bcbfa739c6fd797081f2d145b1fa34ef1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 76/85] fix: *><> files receive the low byte of large values

---
 src/StarfishStrategy.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index f3c4d66..f2a1aac 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -101,7 +101,8 @@ FungeError StarfishStrategy::instructionFile(){
 		if(file == nullptr){
 			std::string str;
 			for (size_t i = 0; i < x; ++i){
-				str += pop(TOP);
+				const stack_t c = pop(TOP);
+				str += static_cast<char>(c);
 			}
 			std::reverse(str.begin(), str.end());
 			file = new std::ifstream(str);
@@ -113,7 +114,8 @@ FungeError StarfishStrategy::instructionFile(){
 
 			std::ofstream ofile(filepath);
 			for (size_t i = 0; i < x; ++i){
-				ofile << static_cast<char>(pop(TOP));
+				const stack_t c = pop(TOP);
+				ofile << static_cast<char>(c);
 			}
 		}
 		ret = ERROR_NONE;
-- 
2.43.0


From a6fbc9c45cafbfff1c88675ddbf6188859af8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 77/85] fix: random choices differ between runs and between IPs

The generators were seeded from std::default_random_engine, which always
starts in the same state: every run, and every IP within a run, drew the
same sequence.
---
 src/fingerprint/include/FingerprintFIXP.h | 2 +-
 src/fingerprint/include/FingerprintTOYS.h | 2 +-
 src/include/FungeStrategy.h               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFIXP.h b/src/fingerprint/include/FingerprintFIXP.h
index a7f479b..57ea3ef 100644
--- a/src/fingerprint/include/FingerprintFIXP.h
+++ b/src/fingerprint/include/FingerprintFIXP.h
@@ -19,7 +19,7 @@ class FingerprintFIXP : public Fingerprint {
 		virtual FungeError execute(inst_t cmd) override;
 
 	private:
-		std::default_random_engine rd;
+		std::random_device rd;
 		std::mt19937 gen;
 
 		double stackToFloat(stack_t n);
diff --git a/src/fingerprint/include/FingerprintTOYS.h b/src/fingerprint/include/FingerprintTOYS.h
index f0a31ac..d757b7c 100644
--- a/src/fingerprint/include/FingerprintTOYS.h
+++ b/src/fingerprint/include/FingerprintTOYS.h
@@ -19,7 +19,7 @@ class FingerprintTOYS : public Fingerprint {
 		virtual FungeError execute(inst_t cmd) override;
 		
 	private:
-		std::default_random_engine rd;
+		std::random_device rd;
 		std::mt19937 gen;
 		std::uniform_int_distribution<stack_t> dis;
 		
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index dda894c..985dd81 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -33,7 +33,7 @@ class FungeStrategy {
 		stack_t random(stack_t min, stack_t max);
 	
 	private:
-		std::default_random_engine rd;
+		std::random_device rd;
 		std::mt19937 gen;
 };
 
-- 
2.43.0


From 8c801aaccc2dec26901e30005c55893f30bce2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 78/85] fix: threads that read at once leave the terminal as it
 was

Each reader saved the settings it found and restored them later: with
native threads the second one saved the first one's raw mode and left the
terminal in it.
---
 src/util/ScopedTermios.cpp       | 6 +++++-
 src/util/include/ScopedTermios.h | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/ScopedTermios.cpp b/src/util/ScopedTermios.cpp
index 1b9079a..0c3ed8c 100644
--- a/src/util/ScopedTermios.cpp
+++ b/src/util/ScopedTermios.cpp
@@ -7,7 +7,11 @@
 #include "ScopedTermios.h"
 #include <unistd.h>
 
-ScopedTermios::ScopedTermios(tcflag_t cflag){
+std::mutex ScopedTermios::mutex;
+
+ScopedTermios::ScopedTermios(tcflag_t cflag) :
+	guard(mutex)
+{
 	tcgetattr(STDIN_FILENO, &oldt);
 	termios newt = oldt;
 	newt.c_lflag &= cflag;
diff --git a/src/util/include/ScopedTermios.h b/src/util/include/ScopedTermios.h
index a6a018d..408f4fb 100644
--- a/src/util/include/ScopedTermios.h
+++ b/src/util/include/ScopedTermios.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <mutex>
 #include <termios.h>
 
 class ScopedTermios {
@@ -14,5 +15,7 @@ class ScopedTermios {
 		~ScopedTermios();
 	
 	private:
+		static std::mutex mutex;
+		std::lock_guard<std::mutex> guard;
 		termios oldt;
 };
-- 
2.43.0


From a57d6c5c6d51db19cb16984c3446f2f2dcbfc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 79/85] fix: output appears before that of the commands run
 after it

The buffered output of the program was written after the output of the
commands that = and PERL ran later, unless it went to a terminal.
---
 src/Unefunge98Strategy.cpp          | 1 +
 src/fingerprint/FingerprintPERL.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 7349175..e5d5ea0 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -288,6 +288,7 @@ FungeError Unefunge98Strategy::instructionExecute(){
 	FungeError ret = ERROR_NONE;
 	if(runner.getUniverse().allowExecute()){
 		std::string sys = popString(stack.top());
+		std::cout << std::flush;
 		int code = system(sys.c_str());
 		stack.top().push(code);
 	}else{
diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index cc2eee0..e682363 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -7,6 +7,7 @@
 #include "FingerprintPERL.h"
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
+#include <iostream>
 
 namespace Funge {
 
@@ -53,6 +54,7 @@ int FingerprintPERL::perl(const std::string& code){
 		}
 	}
 	cmd += "})'";
+	std::cout << std::flush;
 	return system(cmd.c_str()) >> 8;
 }
 
-- 
2.43.0


From c69efa87dbfa4d3a51ab87e016ecda90b26c5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 80/85] fix: IIPC uses another IP's stack only between its
 instructions and only while it lives

---
 src/FungeRunner.cpp                       |  8 ++++++
 src/FungeUniverse.cpp                     |  2 +-
 src/fingerprint/FingerprintIIPC.cpp       | 32 ++++++++++++++++++-----
 src/fingerprint/include/FingerprintIIPC.h |  8 ++++++
 src/include/FungeRunner.h                 |  3 +++
 5 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index b2772e7..8352a9c 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -23,6 +23,7 @@ std::atomic<size_t> FungeRunner::count = 0;
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta) :
 	id(count++),
 	universe(&uni),
+	mutex(),
 	stack(new StackStack()),
 	ip(*this),
 	hasParent(false),
@@ -42,6 +43,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta, FungeRunner& r) :
 	id(count++),
 	universe(&uni),
+	mutex(),
 	stack(r.stack),
 	ip(*this),
 	hasParent(true),
@@ -61,6 +63,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 FungeRunner::FungeRunner(const FungeRunner& runner) :
 	id(count++),
 	universe(runner.universe),
+	mutex(),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
 	hasParent(true),
@@ -138,6 +141,7 @@ void FungeRunner::operator()(){
 }
 
 void FungeRunner::tick(){
+	std::lock_guard<std::recursive_mutex> guard(mutex);
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
@@ -218,6 +222,10 @@ StackStack& FungeRunner::getStack(){
 	return *stack;
 }
 
+std::recursive_mutex& FungeRunner::getMutex(){
+	return mutex;
+}
+
 InstructionPointer& FungeRunner::getIP(){
 	return ip;
 }
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 4eb3d5f..7aa0e1b 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -248,7 +248,7 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 FungeRunner* FungeUniverse::getRunner(size_t id){
 	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
-		if(r->getID() == id){
+		if(r->getID() == id && r->isRunning()){
 			return r;
 		}
 	}
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index 074e085..5830023 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintIIPC.h"
 #include "FungeUniverse.h"
+#include <thread>
 
 namespace Funge {
 
@@ -17,6 +18,7 @@ FingerprintIIPC::FingerprintIIPC(FungeRunner& r) :
 
 FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	std::unique_lock<std::recursive_mutex> guard;
 	switch(cmd){
 		case 'A':{
 			const size_t* parent = runner.getParentID();
@@ -41,8 +43,8 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 			}
 		} break;
 		case 'G':{
-			size_t id = stack.top().pop();
-			FungeRunner* other = runner.getUniverse().getRunner(id);
+			FungeRunner* other = lockOther(guard);
+			stack.top().pop();
 			if(other == nullptr){
 				ret = ERROR_UNSPEC;
 			}else{
@@ -53,8 +55,8 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 			stack.top().push(runner.getID());
 			break;
 		case 'L':{
-			size_t id = stack.top().pop();
-			FungeRunner* other = runner.getUniverse().getRunner(id);
+			FungeRunner* other = lockOther(guard);
+			stack.top().pop();
 			if(other == nullptr){
 				ret = ERROR_UNSPEC;
 			}else{
@@ -62,9 +64,9 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 			}
 		} break;
 		case 'P':{
-			size_t id = stack.top().pop();
+			FungeRunner* other = lockOther(guard);
+			stack.top().pop();
 			stack_t val = stack.top().pop();
-			FungeRunner* other = runner.getUniverse().getRunner(id);
 			if(other == nullptr){
 				ret = ERROR_UNSPEC;
 			}else{
@@ -77,4 +79,22 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 	return ret;
 }
 
+FungeRunner* FingerprintIIPC::lockOther(std::unique_lock<std::recursive_mutex>& guard){
+	while(!ip.isStopped()){
+		FungeRunner* other = runner.getUniverse().getRunner(stack.top().peek());
+		if(other == nullptr){
+			break;
+		}
+		guard = std::unique_lock<std::recursive_mutex>(other->getMutex(), std::try_to_lock);
+		if(guard.owns_lock()){
+			return other;
+		}
+		// It may want this one, and put something on the stack
+		runner.getMutex().unlock();
+		std::this_thread::yield();
+		runner.getMutex().lock();
+	}
+	return nullptr;
+}
+
 }
diff --git a/src/fingerprint/include/FingerprintIIPC.h b/src/fingerprint/include/FingerprintIIPC.h
index af921e3..2274021 100644
--- a/src/fingerprint/include/FingerprintIIPC.h
+++ b/src/fingerprint/include/FingerprintIIPC.h
@@ -7,6 +7,7 @@
 #pragma once
 
 #include "Fingerprint.h"
+#include <mutex>
 
 namespace Funge {
 
@@ -18,6 +19,13 @@ class FingerprintIIPC : public Fingerprint {
 		virtual FungeError execute(inst_t cmd) override;
 	
 	private:
+		/**
+		 * Find the IP whose id is on the stack, between two of its instructions.
+		 * @param guard Keeps the IP from executing its next instruction.
+		 * @return The IP, or nullptr if there is none.
+		 */
+		FungeRunner* lockOther(std::unique_lock<std::recursive_mutex>& guard);
+
 		size_t sage;
 		bool dormant;
 };
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index 15713dc..c4e4e7c 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -14,6 +14,7 @@
 #include "FungeConfig.h"
 #include <atomic>
 #include <memory>
+#include <mutex>
 
 namespace Funge {
 class FungeUniverse;
@@ -41,6 +42,7 @@ class FungeRunner {
 		FungeUniverse& getUniverse();
 		Field& getField();
 		StackStack& getStack();
+		std::recursive_mutex& getMutex();
 		InstructionPointer& getIP();
 		const InstructionPointer& getIP()const;
 		bool isMode(FungeMode m) const;
@@ -62,6 +64,7 @@ class FungeRunner {
 
 		size_t id;
 		FungeUniverse* universe;
+		std::recursive_mutex mutex; // Held during each tick
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
 		bool hasParent;
-- 
2.43.0


From 8ad5fe721b629cd48979556e312267838ae07f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 81/85] fix: MODE and NFUN do not change what other threads are
 using

---
 src/FungeRunner.cpp                 |  3 ++
 src/FungeUniverse.cpp               | 43 +++++++++++++++++------------
 src/StackStack.cpp                  |  4 +++
 src/fingerprint/FingerprintIIPC.cpp |  1 +
 src/fingerprint/FingerprintNFUN.cpp |  4 +--
 src/include/FungeUniverse.h         |  4 ++-
 src/include/StackStack.h            |  6 ++++
 7 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 8352a9c..329c1b3 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -143,6 +143,9 @@ void FungeRunner::operator()(){
 void FungeRunner::tick(){
 	std::lock_guard<std::recursive_mutex> guard(mutex);
 	FungeError err = ERROR_UNSPEC;
+	if(stack->getMode() != getMode()){
+		stack->setMode(getMode());
+	}
 	do {
 		getUniverse().getDebugger().tick(*this);
 		if(ip.isStopped()){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 7aa0e1b..57c92d2 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -17,6 +17,8 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	running(true),
 	exitcode(0),
 	config(cfg),
+	mode(cfg.mode),
+	dims(cfg.dimensions),
 	debug(*this),
 	field(file, fmt, cfg.dimensions, cfg.cells),
 	thread(nullptr),
@@ -30,7 +32,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 {
 	thread = new std::thread(std::ref(*this));
 	if(cfg.dimensions == 0){
-		config.dimensions = field.size();
+		dims = field.size();
 	}
 }
 
@@ -38,6 +40,8 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
 	config(cfg),
+	mode(cfg.mode),
+	dims(cfg.dimensions),
 	debug(*this),
 	field(cfg.dimensions, cfg.cells),
 	thread(nullptr),
@@ -51,7 +55,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 {
 	thread = new std::thread(std::ref(*this));
 	if(cfg.dimensions == 0){
-		config.dimensions = field.size();
+		dims = field.size();
 	}
 }
 
@@ -117,7 +121,7 @@ void FungeUniverse::leave(FungeRunner* runner){
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	++arrivals;
-	runner->setMode(config.mode);
+	runner->setMode(mode);
 	if(!running){
 		// The universe has ended already
 		runner->getIP().stop();
@@ -256,10 +260,9 @@ FungeRunner* FungeUniverse::getRunner(size_t id){
 }
 
 size_t FungeUniverse::dimensions(size_t d){
-	if(d > 0){
-		config.dimensions = d;
-	}
-	return config.dimensions;
+	size_t now = dims;
+	while(now < d && !dims.compare_exchange_weak(now, d)){}
+	return dims;
 }
 
 FungeStandard FungeUniverse::standard() const {
@@ -275,32 +278,36 @@ FungeString FungeUniverse::stringStyle() const {
 }
 
 void FungeUniverse::setMode(FungeMode m){
-	config.mode |= m;
-	updateMode();
+	std::lock_guard<std::mutex> guard(mutex);
+	setModes(mode | m);
 }
 
 void FungeUniverse::clearMode(FungeMode m){
-	config.mode &= ~m;
-	updateMode();
+	std::lock_guard<std::mutex> guard(mutex);
+	setModes(mode & ~m);
 }
 
 void FungeUniverse::toggleMode(FungeMode m){
-	config.mode ^= m;
-	updateMode();
+	std::lock_guard<std::mutex> guard(mutex);
+	setModes(mode ^ m);
 }
 
 FungeMode FungeUniverse::getMode() const {
-	return config.mode;
+	return mode;
 }
 
 bool FungeUniverse::isMode(FungeMode m) const {
-	return !!(config.mode & m);
+	return !!(mode & m);
 }
 
-void FungeUniverse::updateMode(){
-	std::lock_guard<std::mutex> guard(mutex);
+void FungeUniverse::setModes(FungeMode m){
+	mode = m;
+	if(config.threads == THREAD_NATIVE){
+		// Each IP adopts it before its next instruction
+		return;
+	}
 	for(auto r : runners){
-		r->setMode(config.mode);
+		r->setMode(m);
 	}
 }
 
diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 582a4b7..2048bff 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -90,6 +90,10 @@ size_t StackStack::size() const{
 	return stack.size();
 }
 
+FungeMode StackStack::getMode() const{
+	return mode;
+}
+
 void StackStack::setMode(FungeMode m){
 	mode = m;
 	for(auto s : stack){
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index 5830023..3b03bd2 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -87,6 +87,7 @@ FungeRunner* FingerprintIIPC::lockOther(std::unique_lock<std::recursive_mutex>&
 		}
 		guard = std::unique_lock<std::recursive_mutex>(other->getMutex(), std::try_to_lock);
 		if(guard.owns_lock()){
+			other->setMode(other->getMode());
 			return other;
 		}
 		// It may want this one, and put something on the stack
diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index 7a8f826..cf67eea 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -110,9 +110,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		default:
 			return ERROR_UNIMP;
 	}
-	if(runner.getUniverse().dimensions() < dim){
-		runner.getUniverse().dimensions(dim);
-	}
+	runner.getUniverse().dimensions(dim);
 	return ERROR_NONE;
 }
 
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 0487ff6..84a9dc0 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -135,6 +135,8 @@ class FungeUniverse {
 		std::atomic<bool> running;
 		int exitcode;
 		FungeConfig config;
+		std::atomic<FungeMode> mode;
+		std::atomic<size_t> dims;
 		FungeDebugger debug;
 		Field field;
 		std::thread* thread;
@@ -149,7 +151,7 @@ class FungeUniverse {
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
 		bool isAlive() const;
-		void updateMode();
+		void setModes(FungeMode m);
 
 		friend class FungeMultiverse;
 };
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 776b0ad..c44a19d 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -123,6 +123,12 @@ class StackStack {
 		 */
 		size_t size() const;
 
+		/**
+		 * Get the stack mode.
+		 * @return Current mode.
+		 */
+		FungeMode getMode() const;
+
 		/**
 		 * Set the stack mode.
 		 * @param m New mode.
-- 
2.43.0


From 093d36fcf53a276bc3c8e76e665edf44cd8e7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 82/85] fix: q ends the program although another thread waits
 for input

---
 src/FishStrategy.cpp                |  2 +-
 src/Funge.cpp                       |  6 ++++++
 src/FungeUniverse.cpp               |  4 ++++
 src/Unefunge93Strategy.cpp          | 12 ++++++------
 src/fingerprint/FingerprintBASE.cpp | 15 ++++++++++++++-
 src/fingerprint/FingerprintSTRN.cpp |  5 ++++-
 src/include/FungeUniverse.h         |  1 +
 src/util/FungeUtilities.cpp         | 27 +++++++++++++++++++++++++++
 src/util/include/FungeUtilities.h   | 13 +++++++++++++
 9 files changed, 76 insertions(+), 9 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 3ee7cf1..1f35283 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -420,7 +420,7 @@ FungeError FishStrategy::instructionIn(){
 	int q = EOF;
 	if(file == nullptr){
 		ScopedTermios term(~(ECHO | ICANON));
-		q = getchar();
+		q = readChar(runner);
 	}else{
 		q = file->get();
 	}
diff --git a/src/Funge.cpp b/src/Funge.cpp
index 8e4a9be..fa5d194 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -9,6 +9,7 @@
 #include "FungeRunner.h"
 #include "FungeMultiverse.h"
 #include "Vector.h"
+#include <cstdio>
 #include <cstring>
 #include <filesystem>
 #include <fstream>
@@ -229,6 +230,11 @@ int fungemain(int argc, char **argv, char **envp){
 		funge_config.env.push_back(std::string(*env));
 	}
 
+	if(funge_config.threads == THREAD_NATIVE){
+		// Whether a read would wait is asked of the file itself
+		setvbuf(stdin, nullptr, _IONBF, 0);
+	}
+
 	int uni = createUniverse(filepath, funge_config);
 	if(uni != 0){
 		return uni;
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 57c92d2..bd3af72 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -331,4 +331,8 @@ bool FungeUniverse::invertHL() const {
 	return config.inverthl;
 }
 
+bool FungeUniverse::nativeThreads() const {
+	return config.threads == THREAD_NATIVE;
+}
+
 }
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 407980a..deab093 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -198,22 +198,22 @@ FungeError Unefunge93Strategy::instructionSwap(){
 FungeError Unefunge93Strategy::instructionNumIn(){
 	ScopedTermios term(~(ICANON));
 	stack_t num = 0;
-	int c = getchar();
+	int c = readChar(runner);
 	if(c == EOF){
 		return ERROR_UNSPEC;
 	}
 	while(c < '0' || c > '9'){
-		c = getchar();
+		c = readChar(runner);
 		if(c == EOF){
 			return ERROR_UNSPEC;
 		}
 	}
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
-		c = getchar();
+		c = readChar(runner);
 	}
 	if(c != EOF){
-		ungetc(c, stdin);
+		unreadChar(c);
 	}
 	stack.top().push(num);
 	return ERROR_NONE;
@@ -221,12 +221,12 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 
 FungeError Unefunge93Strategy::instructionCharIn(){
 	ScopedTermios term(~(ICANON));
-	int q = getchar();
+	int q = readChar(runner);
 	if(q == EOF){
 		return ERROR_UNSPEC;
 	}
 	if(q == 13){
-		q = getchar();
+		q = readChar(runner);
 		if(q == EOF){
 			return ERROR_UNSPEC;
 		}
diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 7613e1e..fb9ab68 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -5,7 +5,10 @@
  */
 
 #include "FingerprintBASE.h"
+#include "FungeUtilities.h"
 #include <algorithm>
+#include <cctype>
+#include <cstdio>
 #include <iostream>
 
 namespace Funge {
@@ -133,7 +136,17 @@ void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
 
 stack_t FingerprintBASE::readNum(unsigned int base) const{
 	std::string str;
-	std::cin >> str;
+	int c = readChar(runner);
+	while(c != EOF && std::isspace(c)){
+		c = readChar(runner);
+	}
+	while(c != EOF && !std::isspace(c)){
+		str += static_cast<char>(c);
+		c = readChar(runner);
+	}
+	if(c != EOF){
+		unreadChar(c);
+	}
 	stack_t num = 0;
 	if(base <= 1){
 		num = str.size();
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 5bc16a5..74555fa 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -7,6 +7,7 @@
 #include "FingerprintSTRN.h"
 #include "FungeUtilities.h"
 #include <cerrno>
+#include <cstdio>
 #include <cstdlib>
 
 namespace Funge {
@@ -58,7 +59,9 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'I':{
 			std::string str;
-			std::getline(std::cin, str);
+			for(int c = readChar(runner); c != EOF && c != '\n'; c = readChar(runner)){
+				str += static_cast<char>(c);
+			}
 			pushString(stack.top(), str);
 		} break;
 		case 'L':{
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 84a9dc0..d4a14bd 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -129,6 +129,7 @@ class FungeUniverse {
 		bool allowFilesystem() const;
 		bool allowFingerprints() const;
 		bool invertHL() const;
+		bool nativeThreads() const;
 	
 	private:
 		static std::atomic<size_t> arrivals;
diff --git a/src/util/FungeUtilities.cpp b/src/util/FungeUtilities.cpp
index 096ceb3..6074484 100644
--- a/src/util/FungeUtilities.cpp
+++ b/src/util/FungeUtilities.cpp
@@ -8,9 +8,36 @@
 #include "FungeConfig.h"
 #include "FungeUniverse.h"
 #include "Stack.h"
+#include <atomic>
+#include <cstdio>
+#include <iostream>
+#include <poll.h>
+#include <unistd.h>
 
 namespace Funge {
 
+// A character has been put back
+static std::atomic<bool> unread(false);
+
+int readChar(FungeRunner& runner){
+	if(!unread.exchange(false) && runner.getUniverse().nativeThreads()){
+		// Another IP may execute q
+		std::cout << std::flush;
+		pollfd input = {STDIN_FILENO, POLLIN, 0};
+		while(poll(&input, 1, 10) == 0){
+			if(runner.getIP().isStopped()){
+				return EOF;
+			}
+		}
+	}
+	return getchar();
+}
+
+void unreadChar(int c){
+	ungetc(c, stdin);
+	unread = true;
+}
+
 size_t pushVector(FungeRunner& runner, const Vector& vector, Stack* stack){
 	if(stack == nullptr){
 		stack = &runner.getStack().top();
diff --git a/src/util/include/FungeUtilities.h b/src/util/include/FungeUtilities.h
index f682510..8817f84 100644
--- a/src/util/include/FungeUtilities.h
+++ b/src/util/include/FungeUtilities.h
@@ -12,6 +12,19 @@
 
 namespace Funge {
 
+/**
+ * Read a character from standard input.
+ * @param runner Runner requesting input, no longer waited for when it is stopped.
+ * @return The character or EOF.
+ */
+int readChar(FungeRunner& runner);
+
+/**
+ * Put the last character read back into standard input.
+ * @param c Character to put back.
+ */
+void unreadChar(int c);
+
 /**
  * Push a Vector to a Stack.
  * @param runner Runner requesting push.
-- 
2.43.0


From 7fe78271fe2c6266dfab119aa28f2afea3dd8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 83/85] fix: the program's end does not destroy a universe that
 another IP is still using

---
 src/FungeMultiverse.cpp       | 16 +++++++++++++---
 src/FungeUniverse.cpp         | 29 ++++++++++++++++++-----------
 src/include/FungeMultiverse.h |  2 ++
 src/include/FungeUniverse.h   |  5 +++++
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index f6e5565..91e81c9 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -12,16 +12,24 @@ namespace Funge {
 FungeMultiverse::FungeMultiverse() :
 	prime(nullptr),
 	universes(),
+	created(),
 	mutex()
 {
 
 }
 
 FungeMultiverse::~FungeMultiverse(){
-	std::lock_guard<std::mutex> guard(mutex);
-	for(auto uni : universes){
+	std::unique_lock<std::mutex> guard(mutex);
+	// IPs may still be using and creating universes younger than their own
+	for(size_t i = 0; i < created.size(); ++i){
+		FungeUniverse* uni = created[i];
+		guard.unlock();
+		uni->end();
+		guard.lock();
+	}
+	for(auto uni : created){
 		// Destroy the universe
-		delete uni.second;
+		delete uni;
 	}
 }
 
@@ -40,6 +48,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
 	universes[cfg.name] = uni;
+	created.push_back(uni);
 	if(prime == nullptr){
 		prime = uni;
 	}
@@ -55,6 +64,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
+	created.push_back(uni);
 	if(prime == nullptr){
 		prime = uni;
 	}
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index bd3af72..79fb5e3 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -60,18 +60,8 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 }
 
 FungeUniverse::~FungeUniverse(){
-	killAll(1);
-	thread->join();
+	end();
 
-	std::unique_lock<std::mutex> guard(mutex);
-	while(threads.size() > 0){
-		std::thread* thread = threads.front();
-		threads.pop();
-		guard.unlock();
-		thread->join();
-		delete thread;
-		guard.lock();
-	}
 #ifdef FUNGE_MONITOR
 	monitorEnd(*this);
 #endif
@@ -84,6 +74,23 @@ FungeUniverse::~FungeUniverse(){
 	delete thread;
 }
 
+void FungeUniverse::end(){
+	killAll(1);
+	if(thread->joinable()){
+		thread->join();
+	}
+
+	std::unique_lock<std::mutex> guard(mutex);
+	while(threads.size() > 0){
+		std::thread* thread = threads.front();
+		threads.pop();
+		guard.unlock();
+		thread->join();
+		delete thread;
+		guard.lock();
+	}
+}
+
 void FungeUniverse::cloneRunner(const FungeRunner& runner){
 	addRunner(new FungeRunner(runner));
 }
diff --git a/src/include/FungeMultiverse.h b/src/include/FungeMultiverse.h
index 381e4d9..aa9a21a 100644
--- a/src/include/FungeMultiverse.h
+++ b/src/include/FungeMultiverse.h
@@ -9,6 +9,7 @@
 #include "FungeUniverse.h"
 #include <unordered_map>
 #include <mutex>
+#include <vector>
 
 namespace Funge {
 
@@ -74,6 +75,7 @@ class FungeMultiverse {
 	private:
 		FungeUniverse* prime;
 		std::unordered_map<std::string, FungeUniverse*> universes;
+		std::vector<FungeUniverse*> created;
 		mutable std::mutex mutex;
 
 		FungeMultiverse();
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index d4a14bd..c35452f 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -56,6 +56,11 @@ class FungeUniverse {
 		 */
 		void killAll(int ret);
 
+		/**
+		 * Kill all threads and wait until none of them runs any more.
+		 */
+		void end();
+
 		/**
 		 * Check if the universe is running.
 		 * @return true if there are runners in the universe.
-- 
2.43.0


From 98bb50876219165330589cf2bcd67b2128cc90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:42 +0000
Subject: [PATCH 84/85] fix: the bindings of ended IPs and unloaded
 fingerprints are freed

Every FungeSemantic was allocated and none was ever freed, so a program that
splits or loads fingerprints in a loop kept growing.
---
 src/FungeRunner.cpp                 |  8 ++++----
 src/FungeStateNormal.cpp            | 19 ++++++++++---------
 src/fingerprint/FingerprintFING.cpp | 12 ++++++------
 src/include/FungeRunner.h           |  6 +++---
 src/include/FungeStateNormal.h      |  9 +++++----
 5 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 329c1b3..c1b3ac6 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -249,19 +249,19 @@ FungeMode FungeRunner::getMode() const {
 	return universe->getMode();
 }
 
-void FungeRunner::pushSemantic(inst_t i, FungeSemantic* func){
+void FungeRunner::pushSemantic(inst_t i, std::shared_ptr<FungeSemantic> func){
 	normalState.pushSemantic(i, func);
 }
 
 void FungeRunner::pushSemantic(inst_t i, std::function<FungeError()> func, FungeSemantic::SemanticFlags flg){
-	normalState.pushSemantic(i, new FungeSemantic(func, flg));
+	normalState.pushSemantic(i, std::make_shared<FungeSemantic>(func, flg));
 }
 
-FungeSemantic* FungeRunner::popSemantic(inst_t i){
+std::shared_ptr<FungeSemantic> FungeRunner::popSemantic(inst_t i){
 	return normalState.popSemantic(i);
 }
 
-FungeSemantic* FungeRunner::getSemantic(inst_t i){
+std::shared_ptr<FungeSemantic> FungeRunner::getSemantic(inst_t i){
 	return normalState.getSemantic(i);
 }
 
diff --git a/src/FungeStateNormal.cpp b/src/FungeStateNormal.cpp
index cefda9c..7993592 100644
--- a/src/FungeStateNormal.cpp
+++ b/src/FungeStateNormal.cpp
@@ -16,16 +16,16 @@ FungeStateNormal::FungeStateNormal(FungeRunner& r) :
 {
 }
 
-void FungeStateNormal::pushSemantic(inst_t i, FungeSemantic* func){
+void FungeStateNormal::pushSemantic(inst_t i, std::shared_ptr<FungeSemantic> func){
 	auto exist = semantics.find(i);
 	if(exist == semantics.cend()){
-		semantics[i] = std::stack<FungeSemantic*>();
+		semantics[i] = std::stack<std::shared_ptr<FungeSemantic>>();
 	}
 	semantics[i].push(func);
 }
 
-FungeSemantic* FungeStateNormal::popSemantic(inst_t i){
-	FungeSemantic* ret = nullptr;
+std::shared_ptr<FungeSemantic> FungeStateNormal::popSemantic(inst_t i){
+	std::shared_ptr<FungeSemantic> ret = nullptr;
 	auto exist = semantics.find(i);
 	if(exist != semantics.cend() && semantics[i].size() > 0){
 		ret = semantics[i].top();
@@ -34,8 +34,8 @@ FungeSemantic* FungeStateNormal::popSemantic(inst_t i){
 	return ret;
 }
 
-FungeSemantic* FungeStateNormal::getSemantic(inst_t i){
-	FungeSemantic* ret = nullptr;
+std::shared_ptr<FungeSemantic> FungeStateNormal::getSemantic(inst_t i){
+	std::shared_ptr<FungeSemantic> ret = nullptr;
 	auto exist = semantics.find(i);
 	if(exist != semantics.cend() && semantics[i].size() > 0){
 		ret = semantics[i].top();
@@ -47,11 +47,12 @@ FungeError FungeStateNormal::execute(inst_t i){
 	FungeError done = ERROR_UNIMP;
 	auto found = semantics.find(i);
 	if(found != semantics.cend() && found->second.size() > 0){
-		FungeSemantic& sem = *found->second.top();
-		if(runner.isMode(FUNGE_MODE_DIVE) && !sem.isMovement()){
+		// It may unbind itself
+		std::shared_ptr<FungeSemantic> sem = found->second.top();
+		if(runner.isMode(FUNGE_MODE_DIVE) && !sem->isMovement()){
 			done = ERROR_SKIP;
 		}else{
-			done = sem();
+			done = (*sem)();
 		}
 	}
 	return done;
diff --git a/src/fingerprint/FingerprintFING.cpp b/src/fingerprint/FingerprintFING.cpp
index 350283e..45bee2e 100644
--- a/src/fingerprint/FingerprintFING.cpp
+++ b/src/fingerprint/FingerprintFING.cpp
@@ -29,13 +29,13 @@ FungeError FingerprintFING::execute(inst_t cmd){
 				b += 'A';
 			}
 			if(b >= 'A' && b <= 'Z'){
-				FungeSemantic* sema = runner.popSemantic(a);
-				FungeSemantic* semb = runner.popSemantic(b);
+				std::shared_ptr<FungeSemantic> sema = runner.popSemantic(a);
+				std::shared_ptr<FungeSemantic> semb = runner.popSemantic(b);
 				if(sema == nullptr){
-					sema = new FungeSemantic(std::bind(&FingerprintFING::instructionReflect, this));
+					sema = std::make_shared<FungeSemantic>(std::bind(&FingerprintFING::instructionReflect, this));
 				}
 				if(semb == nullptr){
-					semb = new FungeSemantic(std::bind(&FingerprintFING::instructionReflect, this));
+					semb = std::make_shared<FungeSemantic>(std::bind(&FingerprintFING::instructionReflect, this));
 				}
 				runner.pushSemantic(a, semb);
 				runner.pushSemantic(b, sema);
@@ -68,9 +68,9 @@ FungeError FingerprintFING::execute(inst_t cmd){
 				src += 'A';
 			}
 			if(src >= 'A' && src <= 'Z'){
-				FungeSemantic* sem = runner.getSemantic(src);
+				std::shared_ptr<FungeSemantic> sem = runner.getSemantic(src);
 				if(sem == nullptr){
-					sem = new FungeSemantic(std::bind(&FingerprintFING::instructionReflect, this));
+					sem = std::make_shared<FungeSemantic>(std::bind(&FingerprintFING::instructionReflect, this));
 				}
 				runner.pushSemantic(dst, sem);
 			}else{
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index c4e4e7c..76b8d75 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -50,10 +50,10 @@ class FungeRunner {
 		FungeMode getMode() const;
 		void setUniverse(FungeUniverse& other);
 
-		void pushSemantic(inst_t i, FungeSemantic* func);
+		void pushSemantic(inst_t i, std::shared_ptr<FungeSemantic> func);
 		void pushSemantic(inst_t i, std::function<FungeError()> func, FungeSemantic::SemanticFlags flg = FungeSemantic::NONE);
-		FungeSemantic* popSemantic(inst_t i);
-		FungeSemantic* getSemantic(inst_t i);
+		std::shared_ptr<FungeSemantic> popSemantic(inst_t i);
+		std::shared_ptr<FungeSemantic> getSemantic(inst_t i);
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
diff --git a/src/include/FungeStateNormal.h b/src/include/FungeStateNormal.h
index 005b234..c056e89 100644
--- a/src/include/FungeStateNormal.h
+++ b/src/include/FungeStateNormal.h
@@ -10,6 +10,7 @@
 #include "FungeStrategy.h"
 #include "FungeSemantic.h"
 #include <map>
+#include <memory>
 #include <stack>
 
 namespace Funge {
@@ -22,14 +23,14 @@ class FungeStateNormal : public FungeState {
 		
 		virtual FungeError execute(inst_t i) override;
 
-		void pushSemantic(inst_t i, FungeSemantic* func);
-		FungeSemantic* popSemantic(inst_t i);
-		FungeSemantic* getSemantic(inst_t i);
+		void pushSemantic(inst_t i, std::shared_ptr<FungeSemantic> func);
+		std::shared_ptr<FungeSemantic> popSemantic(inst_t i);
+		std::shared_ptr<FungeSemantic> getSemantic(inst_t i);
 		
 		FungeStateNormal& operator=(const FungeStateNormal&) = delete;
 	
 	protected:
-		std::map<inst_t, std::stack<FungeSemantic*>> semantics;
+		std::map<inst_t, std::stack<std::shared_ptr<FungeSemantic>>> semantics;
 };
 
 }
-- 
2.43.0


From 60951acc41b824e2ee0a48e732cb2583c20dcfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 85/85] fix: native threads are joined and their IPs freed when
 they end

They were kept until the IPs created before them had ended, which for a
program that splits for ever meant never: it ran out of memory and threads.
---
 src/FungeRunner.cpp                 |  3 ++
 src/FungeUniverse.cpp               | 65 +++++++++++++++++++++--------
 src/fingerprint/FingerprintIIPC.cpp |  3 +-
 src/include/FungeUniverse.h         | 25 +++++++++--
 4 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index c1b3ac6..a87beef 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -137,6 +137,9 @@ void FungeRunner::operator()(){
 	}
 	if(&getUniverse() != &home){
 		home.leave(this);
+		home.finish(nullptr);
+	}else{
+		home.finish(this);
 	}
 }
 
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 79fb5e3..e843fb5 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -8,6 +8,7 @@
 #include "FungeMonitor.h"
 #include "FungeRunner.h"
 #include "FungeConfig.h"
+#include <algorithm>
 
 namespace Funge {
 
@@ -23,6 +24,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	field(file, fmt, cfg.dimensions, cfg.cells),
 	thread(nullptr),
 	threads(),
+	ended(),
 	runners(),
 	leaving(0),
 	creator(nullptr),
@@ -46,6 +48,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	field(cfg.dimensions, cfg.cells),
 	thread(nullptr),
 	threads(),
+	ended(),
 	runners(),
 	leaving(0),
 	creator(nullptr),
@@ -81,16 +84,28 @@ void FungeUniverse::end(){
 	}
 
 	std::unique_lock<std::mutex> guard(mutex);
-	while(threads.size() > 0){
-		std::thread* thread = threads.front();
-		threads.pop();
+	while(threads.size() > 0 || ended.size() > 0){
+		std::list<Native>& list = (ended.size() > 0) ? ended : threads;
+		Native native = list.front();
+		list.pop_front();
 		guard.unlock();
-		thread->join();
-		delete thread;
+		reap(native);
 		guard.lock();
 	}
 }
 
+void FungeUniverse::reap(const Native& native){
+	native.thread->join();
+	delete native.thread;
+	if(native.runner != nullptr){
+		{
+			// Another IP may still hold it
+			std::lock_guard<std::recursive_mutex> guard(native.runner->getMutex());
+		}
+		delete native.runner;
+	}
+}
+
 void FungeUniverse::cloneRunner(const FungeRunner& runner){
 	addRunner(new FungeRunner(runner));
 }
@@ -125,6 +140,22 @@ void FungeUniverse::leave(FungeRunner* runner){
 	cv.notify_all();
 }
 
+void FungeUniverse::finish(FungeRunner* runner){
+	std::lock_guard<std::mutex> guard(mutex);
+	auto self = std::find_if(threads.begin(), threads.end(), [](const Native& native){
+		return native.thread->get_id() == std::this_thread::get_id();
+	});
+	if(self != threads.end()){
+		if(runner != nullptr){
+			debug.endThread(*runner);
+			runners.remove(runner);
+			self->runner = runner;
+		}
+		ended.splice(ended.end(), threads, self);
+		semaphore.release();
+	}
+}
+
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	++arrivals;
@@ -135,7 +166,7 @@ void FungeUniverse::addRunner(FungeRunner* runner){
 	}
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
-		threads.push(thread);
+		threads.push_back({thread, nullptr});
 	}
 	runners.push_back(runner);
 	semaphore.release();
@@ -146,15 +177,12 @@ void FungeUniverse::operator()(){
 		semaphore.acquire();
 		if(config.threads == THREAD_NATIVE){
 			mutex.lock();
-			while(threads.size() > 0){
-				std::thread* thread = threads.front();
-				if(thread->joinable()){
-					mutex.unlock();
-					thread->join();
-					mutex.lock();
-				}
-				threads.pop();
-				delete thread;
+			while(ended.size() > 0){
+				const Native& native = ended.front();
+				mutex.unlock();
+				reap(native);
+				mutex.lock();
+				ended.pop_front();
 			}
 			cv.notify_all();
 			mutex.unlock();
@@ -223,7 +251,7 @@ bool FungeUniverse::isRunning() const{
 bool FungeUniverse::isAlive() const{
 	bool alive = (runners.size() > 0 || leaving > 0);
 	if(config.threads == THREAD_NATIVE){
-		alive = (threads.size() > 0);
+		alive = (threads.size() > 0 || ended.size() > 0);
 	}
 	return running && alive;
 }
@@ -256,10 +284,11 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 	return config.fingerprints;
 }
 
-FungeRunner* FungeUniverse::getRunner(size_t id){
-	std::lock_guard<std::mutex> guard(mutex);
+FungeRunner* FungeUniverse::getRunner(size_t id, std::unique_lock<std::recursive_mutex>& guard){
+	std::lock_guard<std::mutex> lock(mutex);
 	for(auto r : runners){
 		if(r->getID() == id && r->isRunning()){
+			guard = std::unique_lock<std::recursive_mutex>(r->getMutex(), std::try_to_lock);
 			return r;
 		}
 	}
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index 3b03bd2..b648a84 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -81,11 +81,10 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 
 FungeRunner* FingerprintIIPC::lockOther(std::unique_lock<std::recursive_mutex>& guard){
 	while(!ip.isStopped()){
-		FungeRunner* other = runner.getUniverse().getRunner(stack.top().peek());
+		FungeRunner* other = runner.getUniverse().getRunner(stack.top().peek(), guard);
 		if(other == nullptr){
 			break;
 		}
-		guard = std::unique_lock<std::recursive_mutex>(other->getMutex(), std::try_to_lock);
 		if(guard.owns_lock()){
 			other->setMode(other->getMode());
 			return other;
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index c35452f..543d520 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -15,8 +15,8 @@
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
+#include <list>
 #include <thread>
-#include <queue>
 
 namespace Funge {
 
@@ -106,6 +106,12 @@ class FungeUniverse {
 		 */
 		void leave(FungeRunner* runner);
 
+		/**
+		 * End the calling native thread.
+		 * @param runner Runner that the thread has run, or nullptr if it has left this universe.
+		 */
+		void finish(FungeRunner* runner);
+
 		/**
 		 * Determine how the universe was created.
 		 * @return runner that created the universe.
@@ -119,7 +125,14 @@ class FungeUniverse {
 		const std::vector<std::string>& arguments() const;
 		const std::vector<std::string>& environment() const;
 		const std::vector<uint64_t>& fingerprints() const;
-		FungeRunner* getRunner(size_t id);
+
+		/**
+		 * Find a running IP in the universe.
+		 * @param id ID of the IP.
+		 * @param guard Tries to lock the runner, which may end at any time while it is not locked.
+		 * @return The runner or nullptr if there is none.
+		 */
+		FungeRunner* getRunner(size_t id, std::unique_lock<std::recursive_mutex>& guard);
 		size_t dimensions(size_t d=0);
 		FungeStandard standard() const;
 		FungeTopo topology() const;
@@ -146,7 +159,12 @@ class FungeUniverse {
 		FungeDebugger debug;
 		Field field;
 		std::thread* thread;
-		std::queue<std::thread*> threads;
+		struct Native {
+			std::thread* thread;
+			FungeRunner* runner;
+		};
+		std::list<Native> threads;
+		std::list<Native> ended;
 		std::list<FungeRunner*> runners;
 		size_t leaving;
 		FungeRunner* creator;
@@ -157,6 +175,7 @@ class FungeUniverse {
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
 		bool isAlive() const;
+		static void reap(const Native& native);
 		void setModes(FungeMode m);
 
 		friend class FungeMultiverse;
-- 
2.43.0

