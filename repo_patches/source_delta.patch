From 0e8ba91a620e6580d8fcf8afbee2b073b3eba343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 01/23] fix: return the learned clause from learnClause

The function has a non-void return type but flowed off its end, which is
undefined behaviour and crashes optimised builds on the first conflict.
---
 bitvec/Formula.cc | 1 +
 src/Formula.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..24238de 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..d3edfeb 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From 78060cd7cce9d2f0ddfe10d2c3ff1ad99683c9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 02/23] fix: bitvec: do not dereference the second watch of a
 unit clause

A clause with one literal has no second watched literal (VAR is -1), so
looking it up read VARLIST[-1].
---
 bitvec/Formula.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 24238de..837d3eb 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -389,7 +389,7 @@ inline void Formula::watchedUpdateVar ( int var ) {
 		next = current->next;
 
 		if (sat(CLAUSELIST[current->c_num]->WATCHED[0])!=1) {
-			if (sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
+			if (CLAUSELIST[current->c_num]->ATOM_LIST.size() > 1 && sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
 				Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 				CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 				CLAUSELIST[current->c_num]->WATCHED[0] = lit;
@@ -571,7 +571,7 @@ void Formula::SwapPointer ( VARRECORD* current ) {
 
 	bool unitClause = true;
 
-	if ( sat ( watched2 )  == 2 ) {
+	if ( clause->ATOM_LIST.size() > 1 && sat ( watched2 )  == 2 ) {
 
 		// if watched2 unassigned, watched1 falsified
 
-- 
2.43.0


From 037124dd2dd367bcfc12d438e6d071337660ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 03/23] fix: bitvec: watchedUndoTheory undoes to the requested
 level

A restart asks for level 0 while LEVEL still holds the backjump level, so
assignments of earlier decision levels survived the restart with LEVEL 0;
a later conflict then looked up the reason of a decision (CLAUSELIST[-1]).
---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 837d3eb..f28e2fe 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -412,7 +412,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From fcdad6a00068982277fe516923a4fa40b5258deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 04/23] fix: ignore repeated literals of an input clause

With watched literals both watches of e.g. '1=1 1=1 0' were the same
literal, which gave wrong UNSAT answers, out-of-bounds accesses and
unbounded recursion.
---
 src/Formula.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index d3edfeb..0a15d2d 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -144,6 +144,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					{
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
+						//a repeated literal adds nothing to the clause
+						if (hasAtom(temp_clause, temp_atom))
+							continue;
 						temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
-- 
2.43.0


From 86997dedba745ae0bc7809484f5886f166737af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 05/23] fix: read input lines of any length

getline into a 3000 byte buffer fails on a longer line and silently drops
that line and the rest of the file, so the formula solved or converted was
not the one given.
---
 bitvec/Formula.cc      | 23 +++++++++++------------
 src/Boolean2Finite.cc  | 21 ++++++++++-----------
 src/Formula.cc         | 23 +++++++++++------------
 src/LinearEncode.cc    | 23 +++++++++++------------
 src/QuadraticEncode.cc | 23 +++++++++++------------
 5 files changed, 54 insertions(+), 59 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index f28e2fe..7d98440 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -61,8 +61,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line_buffer;
+	string word_buffer;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -91,7 +91,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line_buffer))
 	{
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
@@ -103,13 +103,13 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else if line is p cnf var_num clause_num - just write
 		else if(line_buffer[0] == 'p')
 		{
-			sscanf(line_buffer, "p cnf %d %d", &var, &val);
+			sscanf(line_buffer.c_str(), "p cnf %d %d", &var, &val);
 
 		}
 		//else if line is d var# domsize
 		else if(line_buffer[0] == 'd')
 		{
-			sscanf(line_buffer, "d %d %d", &var, &val);
+			sscanf(line_buffer.c_str(), "d %d %d", &var, &val);
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 
@@ -120,10 +120,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
-			char * lp = line_buffer;
+			const char * lp = line_buffer.c_str();
 			do
 			{
-				char * wp = word_buffer;
+				word_buffer.clear();
 				//erasing all leading space/tabs
 				while (*lp && ((*lp == ' ') || (*lp == '\t')))
 				{
@@ -132,15 +132,14 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				//reading each value into word buffer
 				while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
 				{
-					*(wp++) = *(lp++);
+					word_buffer += *(lp++);
 				}
-				*wp = '\0';
 				//converting into int and writing to file
-				if(strlen(word_buffer) != 0)
+				if(!word_buffer.empty())
 				{
-					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+					sscanf(word_buffer.c_str(), "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
-						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+						sscanf(word_buffer.c_str(), "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
 					if(var != 0)
 					{
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..3228a11 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,8 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line_buffer;
+  string word_buffer;
   int line_num = 0;
   int variable = 0;
   set<int> variables;
@@ -47,29 +47,29 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line_buffer))
     {
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-	  outfile.write(line_buffer, strlen(line_buffer));
+	  outfile<<line_buffer;
 	  outfile.put('\n');
 	}
       //else if line is p cnf var_num clause_num - just write
       else if(line_buffer[0] == 'p')
 	{
-	  outfile.write(line_buffer, strlen(line_buffer));
+	  outfile<<line_buffer;
 	  outfile.put('\n');
 	}
       //else its variables
       else
 	{
-	  char * lp = line_buffer;
+	  const char * lp = line_buffer.c_str();
 	  vector <int> temp;
 	  do
 	    {
-	      char * wp = word_buffer;
+	      word_buffer.clear();
 	      //erasing all leading space/tabs
 	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
 		{
@@ -78,13 +78,12 @@ void Boolean2Finite(CommandLine * cline)
 	      //reading each value into word buffer
 	      while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
 		{
-		  *(wp++) = *(lp++);
+		  word_buffer += *(lp++);
 		}
-	      *wp = '\0';
 	      //converting into int and writing to file
-	      if(strlen(word_buffer) != 0)
+	      if(!word_buffer.empty())
 		{
-		  variable = atoi(word_buffer);
+		  variable = atoi(word_buffer.c_str());
 		  variables.insert(abs(variable));
 		  //checking if variable = 0 i.e end of line
 		  if(variable != 0)
diff --git a/src/Formula.cc b/src/Formula.cc
index 0a15d2d..28bd3d8 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -63,8 +63,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line_buffer;
+	string word_buffer;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -93,7 +93,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line_buffer))
 	{
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
@@ -105,23 +105,23 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else if line is p cnf var_num clause_num - just write
 		else if(line_buffer[0] == 'p')
 		{
-			sscanf(line_buffer, "p cnf %d %d", &var, &val);
+			sscanf(line_buffer.c_str(), "p cnf %d %d", &var, &val);
 
 		}
 		//else if line is d var# domsize
 		else if(line_buffer[0] == 'd')
 		{
-			sscanf(line_buffer, "d %d %d", &var, &val);
+			sscanf(line_buffer.c_str(), "d %d %d", &var, &val);
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
 		//else its clause lines
 		else
 		{
-			char * lp = line_buffer;
+			const char * lp = line_buffer.c_str();
 			do
 			{
-				char * wp = word_buffer;
+				word_buffer.clear();
 				//erasing all leading space/tabs
 				while (*lp && ((*lp == ' ') || (*lp == '\t')))
 				{
@@ -130,15 +130,14 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				//reading each value into word buffer
 				while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
 				{
-					*(wp++) = *(lp++);
+					word_buffer += *(lp++);
 				}
-				*wp = '\0';
 				//converting into int and writing to file
-				if(strlen(word_buffer) != 0)
+				if(!word_buffer.empty())
 				{
-					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+					sscanf(word_buffer.c_str(), "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
-						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+						sscanf(word_buffer.c_str(), "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
 					if(var != 0)
 					{
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..89234cf 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,8 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line_buffer;
+  string word_buffer;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,7 +57,7 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line_buffer))
     {
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -69,7 +69,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer.c_str(), "p cnf %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
@@ -81,7 +81,7 @@ void LinearEncode(CommandLine * cline)
       //else if line is d var# domsize
       else if(line_buffer[0] == 'd')
 	{
-	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
+	  temp = sscanf(line_buffer.c_str(), "d %d %d", &var, &val);
 	  count++;
 	  new_num_var += 2*val-1;
 	  new_num_clause += 4*(val-2)+3+1;
@@ -143,10 +143,10 @@ void LinearEncode(CommandLine * cline)
 		}
 	    }
 
-	  char * lp = line_buffer;
+	  const char * lp = line_buffer.c_str();
 	  do
 	    {
-	      char * wp = word_buffer;
+	      word_buffer.clear();
 	      //erasing all leading space/tabs
 	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
 		{
@@ -155,15 +155,14 @@ void LinearEncode(CommandLine * cline)
 	      //reading each value into word buffer
 	      while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
 		{
-		  *(wp++) = *(lp++);
+		  word_buffer += *(lp++);
 		}
-	      *wp = '\0';
 	      //converting into int and writing to file
-	      if(strlen(word_buffer) != 0)
+	      if(!word_buffer.empty())
 		{
-		  temp = sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+		  temp = sscanf(word_buffer.c_str(), "%d %c %d", &var, &ch, &val);
 		  if(ch == '!')
-		    temp = sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+		    temp = sscanf(word_buffer.c_str(), "%d %c %c %d", &var, &ch, &ch1, &val);
 		  //checking if variable = 0 i.e end of line
 		  if(var != 0)
 		    {
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..735ab33 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -27,8 +27,8 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line_buffer;
+  string word_buffer;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -63,7 +63,7 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line_buffer))
     {
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -75,13 +75,13 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer.c_str(), "p cnf %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
       else if(line_buffer[0] == 'd')
 	{
-	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
+	  temp = sscanf(line_buffer.c_str(), "d %d %d", &var, &val);
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
@@ -112,10 +112,10 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }
-	  char * lp = line_buffer;
+	  const char * lp = line_buffer.c_str();
 	  do
 	    {
-	      char * wp = word_buffer;
+	      word_buffer.clear();
 	      //erasing all leading space/tabs
 	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
 		{
@@ -124,18 +124,17 @@ void QuadraticEncode(CommandLine * cline)
 	      //reading each value into word buffer
 	      while (*lp && (*lp != ' ') && (*lp != '\t') && (*lp != '\n'))
 		{
-		  *(wp++) = *(lp++);
+		  word_buffer += *(lp++);
 		}
-	      *wp = '\0';
 	      //converting into int and writing to file
-	      if(strlen(word_buffer) != 0)
+	      if(!word_buffer.empty())
 		{
-		  temp = sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+		  temp = sscanf(word_buffer.c_str(), "%d %c %d", &var, &ch, &val);
 		  if(var != 0 )
 		    {
 		      if(ch == '!')
 			{
-			  temp = sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+			  temp = sscanf(word_buffer.c_str(), "%d %c %c %d", &var, &ch, &ch1, &val);
 			  outfile<<"-"<<var<<"="<<val<<" ";
 			}
 		      else
-- 
2.43.0


From 3bd7241a0e55f1b08a5741b765990473e0207c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 06/23] fix: skip blank lines and treat an empty clause as
 unsatisfiable

A blank line (the README example ends with one) or a line '0' became an
empty clause: without watched literals the answer was SAT with an incorrect
model, with watched literals and in bitvec it crashed, and the converters
wrote it out as a clause.
---
 bitvec/Formula.cc      | 21 +++++++++++++++++----
 src/Boolean2Finite.cc  |  3 +++
 src/Formula.cc         | 13 +++++++++++--
 src/LinearEncode.cc    |  3 +++
 src/QuadraticEncode.cc |  3 +++
 5 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d98440..ca1c644 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -66,7 +66,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
-	char ch;
+	char ch = 0;
 	char ch1;
 	string str;
 	Variable * temp_var = NULL;
@@ -93,6 +93,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 	//then converting it and writing to outfile or just writing directly
 	while(getline(infile, line_buffer))
 	{
+		//blank lines carry no clause
+		if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+			continue;
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -183,9 +186,19 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 
 
-			Literal watched1 = temp_clause -> ATOM_LIST[0];
-			temp_clause -> WATCHED[0] = watched1;
-			VARLIST[watched1.VAR]->addRecord(clause_num);
+			if ( temp_clause -> ATOM_LIST.empty() ) {
+
+				// an empty clause cannot be satisfied
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+
+			} else {
+
+				Literal watched1 = temp_clause -> ATOM_LIST[0];
+				temp_clause -> WATCHED[0] = watched1;
+				VARLIST[watched1.VAR]->addRecord(clause_num);
+
+			}
 
 			if ( temp_clause -> ATOM_LIST.size() > 1 ) {
 
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 3228a11..45c02ae 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -49,6 +49,9 @@ void Boolean2Finite(CommandLine * cline)
   //then converting it and writing to outfile or just writing directly
   while(getline(infile, line_buffer))
     {
+      //blank lines carry no clause
+      if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+	continue;
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
diff --git a/src/Formula.cc b/src/Formula.cc
index 28bd3d8..48730f4 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -68,7 +68,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
-	char ch;
+	char ch = 0;
 	char ch1;
 	string str;
 	Variable * temp_var = NULL;
@@ -95,6 +95,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 	//then converting it and writing to outfile or just writing directly
 	while(getline(infile, line_buffer))
 	{
+		//blank lines carry no clause
+		if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+			continue;
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -186,10 +189,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				UNITLIST.push_back(clause_num);
 			}
 
+			// an empty clause cannot be satisfied
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
-			if ( WATCH ) {
+			if ( WATCH && ! temp_clause->ATOM_LIST.empty() ) {
 
 				Literal watched1 = temp_clause -> ATOM_LIST[0];
 				temp_clause -> WATCHED[0] = watched1;
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 89234cf..ee23c85 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -59,6 +59,9 @@ void LinearEncode(CommandLine * cline)
   //then converting it and writing to outfile or just writing directly
   while(getline(infile, line_buffer))
     {
+      //blank lines carry no clause
+      if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 735ab33..6c68f92 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -65,6 +65,9 @@ void QuadraticEncode(CommandLine * cline)
   //then converting it and writing to outfile or just writing directly
   while(getline(infile, line_buffer))
     {
+      //blank lines carry no clause
+      if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-- 
2.43.0


From 80a30067e545521912c3313661055b8e969dd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 07/23] fix: handle variables with a one-value domain

Such a variable has its value from the start, but it stayed unassigned and
'1!=0' could be satisfied (wrong SAT); bitvec added literals that no value
satisfies and read out of bounds or answered wrongly.
---
 bitvec/Formula.cc |  4 +++-
 src/Formula.cc    | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index ca1c644..df3066f 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -156,7 +156,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, vals);
-						temp_clause->addAtom(temp_atom);
+						//'!=' over a single value domain can never hold
+						if (vals.any())
+							temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
 						//we can keep track of number of occurrences of each
diff --git a/src/Formula.cc b/src/Formula.cc
index 48730f4..4372e9f 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -221,6 +221,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//closing file
 	infile.close();
+
+	//a variable with a single domain value can only take that value
+	for ( unsigned int i = 1; i < VARLIST.size() && ! CONFLICT; i++ ) {
+		if ( VARLIST[i] -> VAL == -1 && VARLIST[i] -> DOMAINSIZE == 1 ) {
+			ENTAILS++;
+			UNITCLAUSE = -2;
+			if ( WATCH ) watchedReduceTheory ( Literal(i, true, 0) );
+			else reduceTheory ( i, true, 0 );
+		}
+	}
 	TIME_E = GetTime();
 }
 
-- 
2.43.0


From dd094a4306ce742d5579ff6c25572c0938a13594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 08/23] fix: bitvec: stop when a domain exceeds MAX_DOMAIN

The error was printed but solving went on with a wrong domain and answered.
---
 bitvec/Formula.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index df3066f..0989578 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -113,12 +113,14 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		else if(line_buffer[0] == 'd')
 		{
 			sscanf(line_buffer.c_str(), "d %d %d", &var, &val);
-			temp_var = new Variable(var, val);
-			VARLIST.push_back(temp_var);
 
 			if (val>MAX_DOMAIN) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
+				exit(1);
 			}
+
+			temp_var = new Variable(var, val);
+			VARLIST.push_back(temp_var);
 		}
 		//else its clause lines
 		else
-- 
2.43.0


From 9091e585e95d9a8d304a1f289ea8b40c7a037a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 09/23] fix: b2f: declare every variable and terminate clauses

Variables that occur in no clause got no domain line, but the solver looks
variables up by position, so later variables were confused or read out of
bounds; the first variable was dropped when no clause ended with 0, and the
clauses written lacked the 0 end marker.
---
 src/Boolean2Finite.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 45c02ae..e42a7a1 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -20,7 +20,7 @@ void Boolean2Finite(CommandLine * cline)
   string word_buffer;
   int line_num = 0;
   int variable = 0;
-  set<int> variables;
+  int max_var = 0;
   vector <vector<int> > data;
 
   //opening infile to read and checking if it opens
@@ -62,6 +62,8 @@ void Boolean2Finite(CommandLine * cline)
       //else if line is p cnf var_num clause_num - just write
       else if(line_buffer[0] == 'p')
 	{
+	  if(sscanf(line_buffer.c_str(), "p %*s %d", &variable) == 1)
+	    max_var = max(max_var, variable);
 	  outfile<<line_buffer;
 	  outfile.put('\n');
 	}
@@ -87,7 +89,7 @@ void Boolean2Finite(CommandLine * cline)
 	      if(!word_buffer.empty())
 		{
 		  variable = atoi(word_buffer.c_str());
-		  variables.insert(abs(variable));
+		  max_var = max(max_var, abs(variable));
 		  //checking if variable = 0 i.e end of line
 		  if(variable != 0)
 		    {
@@ -115,14 +117,11 @@ void Boolean2Finite(CommandLine * cline)
 	}
     }
 
-  //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  //now writing back the domain information: the solver expects a
+  //domain line for every variable from 1 to N, in order
+  for(int x=1; x<=max_var; x++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<x<<" 2"<<endl;
     }
 
   int ovsize = data.size();
@@ -144,7 +143,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From ceb756af2996dd6e32b37ee59043467a0179d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 10/23] fix: linenc, quadenc: accept the documented 'p mvcnf'
 problem line

Only 'p cnf' was recognised, so the counts were read uninitialised.
---
 src/LinearEncode.cc    | 2 +-
 src/QuadraticEncode.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index ee23c85..11ca960 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -72,7 +72,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer.c_str(), "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer.c_str(), "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 6c68f92..de7f6a8 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -78,7 +78,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer.c_str(), "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer.c_str(), "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
-- 
2.43.0


From 3b80b8196b25c1aaee5987d630917d303c09d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 11/23] fix: linenc: honour '!=' on two-valued variables

'1!=1' was encoded like '1=1'.
---
 src/LinearEncode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 11ca960..07c6448 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -31,7 +31,7 @@ void LinearEncode(CommandLine * cline)
   int temp;
   bool isdone = false;
   int count = 0;
-  char ch, ch1;
+  char ch = 0, ch1;
 
   //opening infile to read and checking if it opens
   infile.open(cline->FILE, ios::in);
@@ -179,7 +179,7 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  if((val == 1) == (ch != '!'))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From 22c017b5180a4ad58efb5b6772aaf936b0878c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 12/23] fix: linenc: count variables and clauses right, encode
 one-value domains

Two-valued variables take one Boolean variable and no clause, but the header
counted three and four; a one-value variable was encoded as two-valued.
---
 src/LinearEncode.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 07c6448..4c65888 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -86,8 +86,19 @@ void LinearEncode(CommandLine * cline)
 	{
 	  temp = sscanf(line_buffer.c_str(), "d %d %d", &var, &val);
 	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
+	  //one variable and no clause for a two-valued variable; a single
+	  //value takes one clause that fixes it
+	  if(val > 2)
+	    {
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
+	  else
+	    {
+	      new_num_var += 1;
+	      if(val == 1)
+		new_num_clause += 1;
+	    }
 	  domain[var] = val;
 	}
       //else its variables
@@ -103,7 +114,7 @@ void LinearEncode(CommandLine * cline)
 	      index[1] = 1;
 	      for(int i=2; i<num_var+1; i++)
 		{
-		  if(domain[i-1] == 2)
+		  if(domain[i-1] <= 2)
 		    index[i] = index[i-1]+1;
 		  else
 		    index[i] = 2*domain[i-1] -1 + index[i-1];
@@ -138,10 +149,9 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
-		  else
+		  else if(domain[i] == 1)
 		    {
-		      //do nothing
-		      ;
+		      outfile<<-index[i]<<" 0"<<endl;
 		    }
 		}
 	    }
-- 
2.43.0


From 5bd75b728018a58a24e23356cd8e6b7b0c2d5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 13/23] fix: quadenc: compute the number of at-most-one clauses
 without overflow

The factorials overflow from domain size 13 on (wrong clause count in the
header, division by zero from 36 on).
---
 src/QuadraticEncode.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index de7f6a8..e31bd90 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -88,7 +78,7 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
       //else its variables
-- 
2.43.0


From 543c6fcf13398d28de81abd00d1e8a29fd12caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 14/23] fix: genben: keep the planted solution in Boolean
 benchmarks

With -sat 1 the first literal of a clause was negated half of the time, so
the planted solution need not satisfy the clause.
---
 src/GenBenFunc.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..76dc5c4 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -179,14 +179,7 @@ void GenBenBool(CommandLine * cline)
 	  if(cline->SAT_UNSAT && x==0)
 	    {
 	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 1ef91b6e4476afa204ce66c3c1f47e75b0d180c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 15/23] fix: genben: -drand never gives an empty domain

rand() % size can be 0, and a value is then drawn modulo zero.
---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 76dc5c4..92149c9 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = 1 + rand() % cline->DOMAIN_SIZE;
 	}
     }
 
-- 
2.43.0


From 6965dc15f9319e9cfc9a9f5d8f365d61d7133fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 16/23] fix: accept the documented -restarts option

Only -restart was recognised; -restarts and its value were ignored.
---
 bitvec/Global.cc | 2 +-
 src/Global.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..1ac33e1 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -125,7 +125,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From 8387a86781eaec0ec367ff0b29908db13b0dcf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 17/23] fix: leave the help menu at end of input

After one valid choice the end of standard input kept the old option and the
menu was printed forever.
---
 bitvec/Global.cc | 3 ++-
 src/Global.cc    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 1ac33e1..8d4aa46 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -45,7 +45,8 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
diff --git a/src/Global.cc b/src/Global.cc
index 4ff0ad0..4cffddd 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -50,7 +50,8 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
-- 
2.43.0


From 4a7b8bf4ea0ac815eab869666fcd1c289569ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 18/23] fix: bitvec: leave the placeholder variable 0 out of
 the model

---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 0989578..73866ed 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -227,7 +227,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 // Printing functions
 void Formula::PrintModel()
 {
-	for(unsigned int  i=0; i<VARLIST.size();i++)
+	for(unsigned int  i=1; i<VARLIST.size();i++)
 	{
 		cout <<i << "=" << VARLIST[i]->CURRENT_DOMAIN << endl;
 	}
-- 
2.43.0


From 774467be5e372a26b42666eecf69a3f038ccb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 19/23] fix: linenc, quadenc: write the domain part of a
 problem without clauses

---
 src/LinearEncode.cc    | 11 ++++++++---
 src/QuadraticEncode.cc | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 4c65888..dc6c10f 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -30,6 +30,7 @@ void LinearEncode(CommandLine * cline)
   int var, val;
   int temp;
   bool isdone = false;
+  bool more = true;
   int count = 0;
   char ch = 0, ch1;
 
@@ -57,10 +58,13 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line_buffer))
+  //a problem without clauses is written when the input ends
+  while((more = bool(getline(infile, line_buffer))) || (!isdone && num_var > 0))
     {
+      if(!more)
+	line_buffer.clear();
       //blank lines carry no clause
-      if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+      else if(line_buffer.find_first_not_of(" \t\r") == string::npos)
 	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -203,7 +207,8 @@ void LinearEncode(CommandLine * cline)
 		    }
 		}
 	    }while(*lp);
-	  outfile<<"0"<<endl;
+	  if(more)
+	    outfile<<"0"<<endl;
 	}
     }
 
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index e31bd90..ca689f9 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -24,6 +24,7 @@ void QuadraticEncode(CommandLine * cline)
   int var, val;
   int temp;
   bool isdone = false;
+  bool more = true;
   bool isneg = false;
   Variable * temp_var;
   vector <Variable *> VAR_LIST;
@@ -53,10 +54,13 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line_buffer))
+  //a problem without clauses is written when the input ends
+  while((more = bool(getline(infile, line_buffer))) || (!isdone && !VAR_LIST.empty()))
     {
+      if(!more)
+	line_buffer.clear();
       //blank lines carry no clause
-      if(line_buffer.find_first_not_of(" \t\r") == string::npos)
+      else if(line_buffer.find_first_not_of(" \t\r") == string::npos)
 	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -137,7 +141,8 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }while(*lp);
-	  outfile<<"0"<<endl;
+	  if(more)
+	    outfile<<"0"<<endl;
 	}
     }
 
-- 
2.43.0


From 80da390324f22630bd78b04b400173c685e957f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 20/23] fix: genben: no variable twice in a Boolean clause

---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 92149c9..ab45860 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -200,7 +200,7 @@ void GenBenBool(CommandLine * cline)
 		  already_exist = false;
 		  for(z=0; z<x && !already_exist; z++)
 		    {
-		      if(BCLAUSE_LIST[y][x] == BCLAUSE_LIST[y][z])
+		      if(abs(BCLAUSE_LIST[y][x]) == abs(BCLAUSE_LIST[y][z]))
 			{
 			  BCLAUSE_LIST[y][x] = (rand() % cline->NUM_VAR) + 1;
 			  already_exist = true;
-- 
2.43.0


From 55fc5b2a7116bf6cbeed322d88cb406eaa4ad7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 21/23] fix: analyse a conflict of the bit-vector solver in a
 loop, not by one call per resolution

---
 bitvec/Formula.cc | 31 ++++++++++++++++++-------------
 bitvec/Formula.h  |  2 ++
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 73866ed..14c9738 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -442,18 +442,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 //--------------- Resolution-based clause learning ---------------------//
 
-Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
-
-	/*
-    First check if there is exactly one atom falsified at the current level.
-    If yes, learn the clause: this way upon backtrack it becomes unit. Otherwise
-    continue analyzing the conflict.
-	 */
-
-	if ( potent ( clause ) ) {
-		learnClause(clause);
-		return clause;
-	}
+Clause* Formula::resolveLatest ( Clause * clause, bool freeClauseAfterUse ) {
 
 	// Resolve the clause and its latest falsified literal's reason
 	// Latest falsified literal in the clause:
@@ -487,7 +476,23 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 		cout << "Resolvent:" << endl;
 		resolvent -> Print();
 	}
-	return analyzeConflict ( resolvent, true );
+	return resolvent;
+}
+
+Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
+
+	/*
+    First check if there is exactly one atom falsified at the current level.
+    If yes, learn the clause: this way upon backtrack it becomes unit. Otherwise
+    continue analyzing the conflict.
+	 */
+
+	while ( ! potent ( clause ) ) {
+		clause = resolveLatest ( clause, freeClauseAfterUse );
+		freeClauseAfterUse = true;
+	}
+	learnClause(clause);
+	return clause;
 }
 
 void Formula::assignWatched( Clause* clause) {
diff --git a/bitvec/Formula.h b/bitvec/Formula.h
index f5b1673..947c4b1 100644
--- a/bitvec/Formula.h
+++ b/bitvec/Formula.h
@@ -97,6 +97,8 @@ public:
   void watchedReduceTheory(Literal lit);
 
   void watchedUpdateVar(int var);
+  //resolveLatest : resolves the clause with the reason of its latest falsified literal
+  Clause * resolveLatest(Clause * clause, bool freeClauseAfterUse);
   //analyzeConflict : finds the conflict, learns and creates a conflict clause,
   //add's the clause to theory and returns a backtrack level
   Clause * analyzeConflict(Clause * clause, bool freeClauseAfterUse);
-- 
2.43.0


From 8c014ab67d0d8aca28378aa04b52adae3d872f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 22/23] fix: analyse a conflict in a loop, not by one call per
 resolution

---
 src/Formula.cc | 31 ++++++++++++++++++-------------
 src/Formula.h  |  2 ++
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index 4372e9f..478326a 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -1016,18 +1016,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 //--------------- Resolution-based clause learning ---------------------//
 
-Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
-
-	/*
-    First check if there is exactly one atom falsified at the current level.
-    If yes, learn the clause: this way upon backtrack it becomes unit. Otherwise
-    continue analyzing the conflict.
-	 */
-
-	if ( potent ( clause ) ) {
-		learnClause(clause);
-		return clause;
-	}
+Clause* Formula::resolveLatest ( Clause * clause, bool freeClauseAfterUse ) {
 
 	// Resolve the clause and its latest falsified literal's reason
 	// Latest falsified literal in the clause:
@@ -1096,7 +1085,23 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 		cout << "Resolvent:" << endl;
 		resolvent -> Print();
 	}
-	return analyzeConflict ( resolvent, true );
+	return resolvent;
+}
+
+Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
+
+	/*
+    First check if there is exactly one atom falsified at the current level.
+    If yes, learn the clause: this way upon backtrack it becomes unit. Otherwise
+    continue analyzing the conflict.
+	 */
+
+	while ( ! potent ( clause ) ) {
+		clause = resolveLatest ( clause, freeClauseAfterUse );
+		freeClauseAfterUse = true;
+	}
+	learnClause(clause);
+	return clause;
 }
 
 
diff --git a/src/Formula.h b/src/Formula.h
index e8e1e40..0ca283a 100644
--- a/src/Formula.h
+++ b/src/Formula.h
@@ -126,6 +126,8 @@ public:
   void unsatisfyClauses(int var, bool equals, int val, int level);
   //addLiteral : adds literal reduced when satisfying other literal
   void addLiteral(int var, bool equals, int val);
+  //resolveLatest : resolves the clause with the reason of its latest falsified literal
+  Clause * resolveLatest(Clause * clause, bool freeClauseAfterUse);
   //analyzeConflict : finds the conflict, learns and creates a conflict clause,
   //add's the clause to theory and returns a backtrack level
   Clause * analyzeConflict(Clause * clause, bool freeClauseAfterUse);
-- 
2.43.0


From ac07a29961b91239a732edb52b6c3a42018c12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 23/23] fix: search chronologically in a loop, not by one call
 per decision

---
 src/Formula.cc | 39 +++++++++++++++++++++++++--------------
 src/Formula.h  |  2 ++
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index 478326a..134f439 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -1564,9 +1564,23 @@ int Formula::ChronoBacktrack(int level)
 	// return 1 : if time out
 	// return 2 : if conflict and later used as unsatisfied
 
+	//decisions whose complement has not been tried yet
+	vector <Literal> open;
+	int result = -1;
+
 	//set LEVEL
 	LEVEL = level;
 
+	do
+		result = chronoStep(open);
+	while(result == -1);
+	return result;
+}
+
+int Formula::chronoStep(vector <Literal> & open)
+{
+	// return as ChronoBacktrack does, or -1 : if the search goes on
+
 	//check if time out
 	TIME_E = GetTime();
 	if((TIME_E - TIME_S) > TIMELIMIT)
@@ -1589,7 +1603,15 @@ int Formula::ChronoBacktrack(int level)
 		undoTheory(LEVEL-1);
 		UNITLIST.clear();
 		LEVEL = LEVEL-1;
-		return 2;
+		if(LEVEL < 0 || open.empty())
+			return 2;
+
+		//the other side of the latest decision
+		Literal atom = open.back();
+		open.pop_back();
+		if (LOG) cout << "Conflict: Propagating " << atom . VAR << ( !atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
+		reduceTheory(atom.VAR, !atom.EQUAL, atom.VAL);
+		return -1;
 	}
 
 	//since all is fine, now need to choose a literal
@@ -1607,19 +1629,8 @@ int Formula::ChronoBacktrack(int level)
 		LEVEL++;
 		if (LOG) cout << "Decision: " << atom . VAR << ( atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
 		reduceTheory(atom.VAR, atom.EQUAL, atom.VAL);
-		int result = ChronoBacktrack(LEVEL);
-		if(result == 0)
-			return 0;
-		else if(result == 1)
-			return 1;
-		else if((result == 2) && (LEVEL >= 0))
-		{
-			if (LOG) cout << "Conflict: Propagating " << atom . VAR << ( !atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
-			reduceTheory(atom.VAR, !atom.EQUAL, atom.VAL);
-			return ChronoBacktrack(LEVEL);
-		}
-		else
-			return 2;
+		open.push_back(atom);
+		return -1;
 	}
 	else
 	{
diff --git a/src/Formula.h b/src/Formula.h
index 0ca283a..292b6e5 100644
--- a/src/Formula.h
+++ b/src/Formula.h
@@ -147,6 +147,8 @@ public:
   //non chronological backtracking, returns backtrack level
   int NonChronoBacktrack(int restarts);
 
+  //chronoStep : one round of the chronological search; open holds the decisions to come back to
+  int chronoStep(vector <Literal> & open);
   //ChronoBacktrack : Extended DPLL algorithm without any learning
   int ChronoBacktrack(int level);
   // watched literals algo from Jain:
-- 
2.43.0

