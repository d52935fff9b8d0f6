From f7b4011e0ec1d9172a20ff73a88adaf69bf4743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:55 +0000
Subject: [PATCH 001/119] fix: decode ^^ notation as TeX does (end of input,
 hex digits, 7-bit only, repeated)

'^^' at the end of the input raised TypeError, ^^5e was read as ^^5 followed
by 'e', characters above 127 were shifted by 64, and a decoded superscript
character did not start another ^^ sequence.  Tokenizer.readline was shadowed
by the source's own readline, which does not see pushed back characters.
---
 plasTeX/Tokenizer.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..d75a83a 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -217,7 +217,6 @@ class Tokenizer(object):
         self.source = source
         self.seek = source.seek
         self.read = source.read
-        self.readline = source.readline
         self.tell = source.tell
         self.lineNumber = 1
 
@@ -254,6 +253,7 @@ class Tokenizer(object):
         CC_SUPER = Token.CC_SUPER
         CC_IGNORED = Token.CC_IGNORED
         CC_INVALID = Token.CC_INVALID
+        HEX_DIGITS = '0123456789abcdef'
 
         def _read1():
             if mybuffer:
@@ -271,21 +271,35 @@ class Tokenizer(object):
 
             code = whichCode(token)
 
-            if code == CC_SUPER:
+            # Handle characters like ^^M, ^^@, ^^5e, etc.
+            while code == CC_SUPER:
 
-                # Handle characters like ^^M, ^^@, etc.
                 next_char = _read1()
-
                 if next_char != token:
                     self.pushChar(next_char)
+                    break
+
+                num_char = _read1()
+                if not num_char or ord(num_char) >= 128:
+                    self.pushChar(num_char)
+                    self.pushChar(next_char)
+                    break
+
+                num = ord(num_char)
+                if num >= 64:
+                    token = chr(num-64)
                 else:
+                    token = chr(num+64)
+
+                # Two lowercase hexadecimal digits
+                if num_char in HEX_DIGITS:
                     next_char = _read1()
-                    num = ord(next_char)
-                    if num >= 64:
-                        token = chr(num-64)
+                    if next_char and next_char in HEX_DIGITS:
+                        token = chr(int(num_char + next_char, 16))
                     else:
-                        token = chr(num+64)
-                    code = whichCode(token)
+                        self.pushChar(next_char)
+
+                code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From 3fc39ca4f82c123ef0e374ed5475fe0e8fb4db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 002/119] fix: skip blanks after every control word and after
 control space

The state after a control sequence was decided by whether its last character
is an ASCII letter instead of by its category, so \makeatletter control words
ending in @ did not absorb blanks.
---
 plasTeX/Tokenizer.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index d75a83a..87edcea 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -447,20 +447,9 @@ class Tokenizer(object):
 
                     else:
                         token = EscapeSequence(next_char)
-#
-# Because we can implement macros both in LaTeX and Python, we don't
-# always want the whitespace to be eaten.  For example, implementing
-# \chardef\%=`% would be \char{`%} in TeX, but in Python it's just
-# another macro class that would eat whitspace incorrectly.  So we
-# have to do this kind of thing in the parse() method of Macro.
-#
-                    if next_code != CC_EOL:
-# HACK: I couldn't get the parse() thing to work so I'm just not
-#       going to parse whitespace after EscapeSequences that end in
-#       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
-                            # Absorb following whitespace
-                            self.state = STATE_S
+                    # Blanks are absorbed after control words and control space
+                    if next_code == CC_LETTER or next_code == CC_SPACE:
+                        self.state = STATE_S
 
                     break
 
-- 
2.43.0


From 3c35e90d272567fa225a8f7e4e60db638ccce892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 003/119] fix: end-of-line rules of the tokenizer

A category 5 character ends the line in every state, an escape character at
the end of a line is a control space, and every new line starts in the new
line state whatever the category of the newline is (\obeylines).
---
 plasTeX/Tokenizer.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 87edcea..e622f63 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -394,27 +394,29 @@ class Tokenizer(object):
 
             # Whitespace
             elif code == CC_SPACE:
-                if self.state  == STATE_S or self.state == STATE_N:
+                skip = self.state == STATE_S or self.state == STATE_N
+                if char == '\n':
+                    self.state = STATE_N
+                elif not skip:
+                    self.state = STATE_S
+                if skip:
                     continue
-                self.state = STATE_S
                 token = Space(' ')
 
             # End of line
             elif code == CC_EOL:
                 state = self.state
+                # The rest of the line is discarded
+                if char != '\n':
+                    self.lineNumber += 1
+                    self.readline()
+                self.state = STATE_N
                 if state == STATE_S:
-                    self.state = STATE_N
                     continue
                 elif state == STATE_M:
                     token = Space(' ')
                     code = CC_SPACE
-                    self.state = STATE_N
-                elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
+                else:
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
@@ -440,10 +442,12 @@ class Tokenizer(object):
                         token = EscapeSequence(''.join(word))
 
                     elif next_code == CC_EOL:
-                        #pushChar(token)
-                        #token = EscapeSequence()
-                        token = Space(' ')
-                        self.state = STATE_S
+                        # Control space at the end of a line
+                        if next_char != '\n':
+                            self.lineNumber += 1
+                            self.readline()
+                        token = EscapeSequence(' ')
+                        self.state = STATE_N
 
                     else:
                         token = EscapeSequence(next_char)
@@ -451,6 +455,10 @@ class Tokenizer(object):
                     if next_code == CC_LETTER or next_code == CC_SPACE:
                         self.state = STATE_S
 
+                    # Every line starts in the new line state
+                    if next_code != CC_LETTER and next_char == '\n':
+                        self.state = STATE_N
+
                     break
 
                 else: token = EscapeSequence()
@@ -481,6 +489,10 @@ class Tokenizer(object):
                 token = tokenClasses[code](char)
                 self.state = STATE_M
 
+            # Every line starts in the new line state
+            if char == '\n':
+                self.state = STATE_N
+
             prev = token
 
             yield token
-- 
2.43.0


From 92829a54ea53b66fc94371263a88e1ef86ba3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 004/119] fix: ignored and invalid characters end a control
 word

They were dropped before the control sequence name was scanned, so a NUL
inside \foo<NUL>bar joined the two words.
---
 plasTeX/Tokenizer.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index e622f63..a38db07 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -245,14 +245,19 @@ class Tokenizer(object):
         the pushChar() method.
 
         """
+        for code, char in self._iterallchars():
+            # Just go to the next character if you see one of these...
+            if code not in (Token.CC_IGNORED, Token.CC_INVALID):
+                yield (code, char)
+
+    def _iterallchars(self) -> Generator[Tuple[CatCode, str], None, None]:
+        """ Same as iterchars, including ignored and invalid characters """
         # Create locals before going into the generator loop
         mybuffer = self._charBuffer
         read = self.read
 
         whichCode = self.context.whichCode
         CC_SUPER = Token.CC_SUPER
-        CC_IGNORED = Token.CC_IGNORED
-        CC_INVALID = Token.CC_INVALID
         HEX_DIGITS = '0123456789abcdef'
 
         def _read1():
@@ -301,10 +306,6 @@ class Tokenizer(object):
 
                 code = whichCode(token)
 
-            # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
-                continue
-
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -358,7 +359,7 @@ class Tokenizer(object):
         EscapeSequence = EscapeSequence
         tokenClasses = self.tokenClasses
         mybuffer = self._tokBuffer
-        charIter = self.iterchars()
+        charIter = self._iterallchars()
         context = self.context
         pushChar = self.pushChar
         STATE_N = self.STATE_N
@@ -373,6 +374,8 @@ class Tokenizer(object):
         CC_EOL = Token.CC_EOL
         CC_COMMENT = Token.CC_COMMENT
         CC_ACTIVE = Token.CC_ACTIVE
+        CC_IGNORED = Token.CC_IGNORED
+        CC_INVALID = Token.CC_INVALID
         prev = None
 
         while 1:
@@ -403,6 +406,12 @@ class Tokenizer(object):
                     continue
                 token = Space(' ')
 
+            # Ignored and invalid characters are dropped
+            elif code == CC_IGNORED or code == CC_INVALID:
+                if char == '\n':
+                    self.state = STATE_N
+                continue
+
             # End of line
             elif code == CC_EOL:
                 state = self.state
-- 
2.43.0


From 17c2366833749b9777046cdc222700c5a638d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 005/119] fix: match delimited parameters of \def as TeX does

---
 plasTeX/__init__.py | 122 ++++++++++++++++++++++++--------------------
 1 file changed, 68 insertions(+), 54 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..6426081 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1168,72 +1168,86 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
-        if not self.args: return self.definition
+        if not self.args:
+            return expandDef(self.definition, [None])
 
-        name = macroName(self)
+        # Split the argument string into the tokens before the first
+        # parameter and, for each parameter, the tokens that delimit it
+        prefix = []
+        delimiters = []
+        current = prefix
         argIter = iter(self.args)
-        inparam = False
-        params = [None]
         for a in argIter:
+            if a.catcode != Token.CC_PARAMETER:
+                current.append(a)
+                continue
 
-            # Beginning a new parameter
-            if a.catcode == Token.CC_PARAMETER:
-
-                # Adjacent parameters, just get the next token
-                if inparam:
-                    params.append(tex.readArgument(parentNode=self,
-                                                   name='#%s' % len(params)))
-
-                # Get the parameter number
-                for a in argIter:
-                    # Numbered parameter
-                    if a in string.digits:
-                        inparam = True
-
-                    elif a.catcode == Token.CC_PARAMETER:
-                        continue
-
-                    # Handle #{ case here
-                    elif a.catcode == Token.CC_BGROUP:
-                        param = []
-                        for t in tex.itertokens():
-                            if t.catcode == Token.CC_BGROUP:
-                                tex.pushToken(t)
-                            else:
-                                param.append(t)
-                        inparam = False
-                        params.append(param)
+            # Get the parameter number
+            while a is not None and a.catcode == Token.CC_PARAMETER:
+                a = next(argIter, None)
 
-                    else:
-                        raise ValueError('Invalid arg string: %s' % ''.join(self.args))
-                    break
-
-            # In a parameter, so get everything up to a token that matches `a`
-            elif inparam:
-                param = []
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    param.append(t)
-                inparam = False
-                params.append(param)
-
-            # Not in a parameter, just make sure the token matches
+            # Handle #{ case here, the brace isn't in the argument string
+            if a is None:
+                current.append(BeginGroup('{'))
+            elif a in string.digits:
+                current = []
+                delimiters.append(current)
             else:
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
-                    break
+                raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+
+        # Not in a parameter, just make sure the tokens match
+        for a in prefix:
+            for t in tex.itertokens():
+                if a.catcode == Token.CC_BGROUP:
+                    tex.pushToken(t)
+                elif t != a:
+                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (macroName(self), t, a, ''.join(self.args)))
+                break
 
-        if inparam:
-            params.append(tex.readArgument(parentNode=self,
-                                           name='#%s' % len(params)))
+        params = [None]
+        for delimiter in delimiters:
+            if delimiter:
+                params.append(self.readDelimited(tex, delimiter))
+            else:
+                params.append(tex.readArgument(parentNode=self,
+                                               name='#%s' % len(params)))
 
         deflog.debug2('expanding %s %s', self.definition, params)
 
         return expandDef(self.definition, params)
 
+    @staticmethod
+    def readDelimited(tex, delimiter):
+        """
+        Read everything up to the given delimiter outside of any group
+
+        The delimiter is removed from the input, except for a trailing
+        left brace.  If the argument is a single group, the braces
+        around it are removed.
+
+        """
+        param = []
+        length = len(delimiter)
+        level = 0
+        # Position where the group that starts the argument ends
+        end = None
+        for t in tex.itertokens():
+            param.append(t)
+            if level == 0 and param[-length:] == delimiter:
+                if t.catcode == Token.CC_BGROUP:
+                    tex.pushToken(t)
+                del param[-length:]
+                break
+            if t.catcode == Token.CC_BGROUP:
+                level += 1
+            elif t.catcode == Token.CC_EGROUP:
+                level -= 1
+                if level == 0 and end is None:
+                    end = len(param)
+        if param and param[0].catcode == Token.CC_BGROUP and end == len(param):
+            param = param[1:-1]
+        return param
+
 
 class number(int):
     """ Class used for parameter and count values """
-- 
2.43.0


From aa4ba9dd473b41ebcb12d83e073df84f05e4b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 006/119] fix: \expandafter of a macro with an empty expansion

---
 plasTeX/Base/TeX/Primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..01d8aa9 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -507,7 +507,8 @@ class expandafter(Command):
         if isinstance(aftertok, Macro):
             expanded = aftertok.invoke(tex)
 
-        expanded = expanded or [aftertok]
+        if expanded is None:
+            expanded = [aftertok]
 
         return [nexttok] + expanded
 
-- 
2.43.0


From ddc47d832b80a961457ddb468bea2933a6bdd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 007/119] fix: a global definition replaces the local ones

---
 plasTeX/Context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..2845758 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -804,7 +804,12 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[0][macroName(value)] = value
+        # A global definition replaces the local ones
+        name = macroName(value)
+        for context in self.contexts[1:]:
+            context.pop(name, None)
+
+        self.contexts[0][name] = value
 
     __setitem__ = addGlobal
 
-- 
2.43.0


From 76969208a6977b47a2f2b4a8755222b18f0a01e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 008/119] fix: resolve \let aliases of characters when they are
 expanded

---
 plasTeX/Base/TeX/Primitives.py |  6 ++++--
 plasTeX/Context.py             | 32 +++++++++++++++++++++++++-------
 plasTeX/TeX.py                 |  6 ++++++
 plasTeX/Tokenizer.py           | 12 ------------
 4 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 01d8aa9..2c4a770 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -350,7 +350,8 @@ class ifdefined(IfCommand):
     def invoke(self, tex):
         a = self.parse(tex)
         n = str(a['name'].macroName)
-        b = n in self.ownerDocument.context
+        context = self.ownerDocument.context
+        b = n in context or context.get_let(n) is not n
         tex.processIfContent(b)
         return []
 
@@ -362,7 +363,8 @@ class ifcsname(IfCommand):
                 break
             name.append(t)
         n = ''.join(name)
-        b = n in self.ownerDocument.context
+        context = self.ownerDocument.context
+        b = n in context or context.get_let(n) is not n
         tex.processIfContent(b)
         return []
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 2845758..f747719 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -806,7 +806,9 @@ class Context(object):
 
         # A global definition replaces the local ones
         name = macroName(value)
+        self.contexts[0].lets.pop(name, None)
         for context in self.contexts[1:]:
+            context.lets.pop(name, None)
             context.pop(name, None)
 
         self.contexts[0][name] = value
@@ -833,7 +835,9 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
-        self.contexts[-1][macroName(value)] = value
+        name = macroName(value)
+        self.contexts[-1].lets.pop(name, None)
+        self.contexts[-1][name] = value
 
     def whichCode(self, char):
         """
@@ -1170,11 +1174,21 @@ class Context(object):
             self.addGlobal(name, newclass)
 
     def get_let(self, command):
+        """
+        Get the token that a command has been \\let to
+
+        Required Arguments:
+        command -- the name of the command
+
+        Returns: the token, or `command` itself if the innermost
+            definition of that command isn't an alias of a token
+
+        """
         for context in reversed(self.contexts):
-            try:
+            if command in context.lets:
                 return context.lets[command]
-            except KeyError:
-                pass
+            if dict.__contains__(context, command):
+                break
         return command
 
     def let(self, dest, source):
@@ -1193,9 +1207,13 @@ class Context(object):
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
         if source.catcode == Token.CC_ESCAPE:
-            self.top[dest.nodeName] = self[source.nodeName]
-        else:
-            self.top.lets[dest.nodeName] = source
+            name = source.nodeName
+            source = self.get_let(name)
+            if source is name:
+                self.top.lets.pop(dest.nodeName, None)
+                self.top[dest.nodeName] = self[name]
+                return
+        self.top.lets[dest.nodeName] = source
 
     def chardef(self, name, num):
         """
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..c63af17 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -291,6 +291,7 @@ class TeX(object):
         pushToken = self.pushToken
         pushTokens = self.pushTokens
         createElement = self.ownerDocument.createElement
+        get_let = self.ownerDocument.context.get_let
         ELEMENT_NODE = Macro.ELEMENT_NODE
 
         while 1:
@@ -308,6 +309,11 @@ class TeX(object):
             elif token.nodeType == ELEMENT_NODE:
                 pass
 
+            # Alias of a character created by \let
+            elif isinstance(token, EscapeSequence) and get_let(token) is not token:
+                pushToken(get_let(token))
+                continue
+
             # We need to expand this one
             elif token.macroName is not None:
                 try:
diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index a38db07..cbd91f9 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -472,17 +472,6 @@ class Tokenizer(object):
 
                 else: token = EscapeSequence()
 
-                # Check for any \let aliases
-                token = context.get_let(token)
-
-                # TODO: This action should be generalized so that the
-                #       tokens are processed recursively
-                if token is not token and token.catcode == CC_COMMENT:
-                    self.readline()
-                    self.lineNumber += 1
-                    self.state = STATE_N
-                    continue
-
             elif code == CC_COMMENT:
                 self.readline()
                 self.lineNumber += 1
@@ -491,7 +480,6 @@ class Tokenizer(object):
 
             elif code == CC_ACTIVE:
                 token = EscapeSequence('active::%s' % char)
-                token = context.get_let(token)
                 self.state = STATE_M
 
             else:
-- 
2.43.0


From 04987d7303894c66a14ed9b9ec84b2346a3ae125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 009/119] fix: definitions made with \newcommand and
 \newenvironment are local

---
 plasTeX/Base/LaTeX/Definitions.py |  4 ++--
 plasTeX/Context.py                | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..a9dcbd8 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -19,7 +19,7 @@ class newcommand(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
@@ -46,7 +46,7 @@ class newenvironment(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['begin'], a['end'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('environment %s %s %s', *args)
         self.ownerDocument.context.newenvironment(*args, **kwargs)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index f747719..a10fa04 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1049,7 +1049,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
         """
         Create a \\newcommand
 
@@ -1059,6 +1059,7 @@ class Context(object):
         definition -- string containing the LaTeX definition
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this macro is local or global
 
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
@@ -1086,9 +1087,12 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
+    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None, local=False):
         """
         Create a \\newenvironment
 
@@ -1101,6 +1105,7 @@ class Context(object):
             environment
         opt -- string containing the LaTeX code to use in the
             optional argument
+        local -- indicates whether this environment is local or global
 
         Examples::
             c.newenvironment('mylist', 0, [r'\\begin{itemize}', r'\\end{itemize}'])
@@ -1127,15 +1132,17 @@ class Context(object):
 
         macrolog.debug('creating newenvironment %s', name)
 
+        add = self.addLocal if local else self.addGlobal
+
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        add(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        add('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
-- 
2.43.0


From 01cd243941eb448a84b5aeb49e5e74d149ecf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 010/119] fix: \expandafter does not expand a \let alias of a
 character

---
 plasTeX/Base/TeX/Primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 2c4a770..3ee74df 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -501,7 +501,8 @@ class expandafter(Command):
 
         # We expand aftertok once, not recursively
         expanded = None
-        if isinstance(aftertok, EscapeSequence):
+        if isinstance(aftertok, EscapeSequence) and \
+           self.ownerDocument.context.get_let(aftertok) is aftertok:
             obj = tex.ownerDocument.createElement(aftertok.macroName)
             obj.contextDepth = aftertok.contextDepth
             obj.parentNode = aftertok.parentNode
-- 
2.43.0


From da53926f2585cc20d4f8bda8c0655673b688442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 011/119] fix: optional argument of \newcommand macros loses
 its outer braces

---
 plasTeX/__init__.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 6426081..cc52a2b 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1126,6 +1126,20 @@ def expandDef(definition, params):
         previous = t
     return output
 
+def stripBraces(tokens):
+    """ Remove the braces around a list of tokens that is a single group """
+    level = 0
+    for i, t in enumerate(tokens):
+        if t.catcode == Token.CC_BGROUP:
+            level += 1
+        elif t.catcode == Token.CC_EGROUP:
+            level -= 1
+        if level == 0:
+            if i > 0 and i == len(tokens) - 1:
+                return tokens[1:-1]
+            break
+    return tokens
+
 class NewCommand(Macro):
     """ Superclass for all \newcommand/\newenvironment type commands """
     nargs = 0
@@ -1145,9 +1159,9 @@ class NewCommand(Macro):
         nargs = self.nargs
         if self.opt is not None:
             nargs -= 1
-            params.append(tex.readArgument('[]', default=self.opt,
+            params.append(stripBraces(tex.readArgument('[]', default=self.opt,
                                            parentNode=self,
-                                           name='#%s' % len(params)))
+                                           name='#%s' % len(params))))
 
         # Get mandatory arguments
         for i in range(nargs):
@@ -1229,8 +1243,6 @@ class Definition(Macro):
         param = []
         length = len(delimiter)
         level = 0
-        # Position where the group that starts the argument ends
-        end = None
         for t in tex.itertokens():
             param.append(t)
             if level == 0 and param[-length:] == delimiter:
@@ -1242,11 +1254,7 @@ class Definition(Macro):
                 level += 1
             elif t.catcode == Token.CC_EGROUP:
                 level -= 1
-                if level == 0 and end is None:
-                    end = len(param)
-        if param and param[0].catcode == Token.CC_BGROUP and end == len(param):
-            param = param[1:-1]
-        return param
+        return stripBraces(param)
 
 
 class number(int):
-- 
2.43.0


From aac9cb03ee9157553bae1f144545b3debfc5f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 012/119] fix: \ifcase out of range, and skipping past macros
 whose name starts with if

---
 plasTeX/TeX.py | 62 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c63af17..42996a8 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -18,8 +18,8 @@ from typing import Optional, List
 import contextlib, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
-from plasTeX.Base.TeX.Primitives import MathShift
-from plasTeX import ParameterCommand, Macro
+from plasTeX.Base.TeX.Primitives import MathShift, IfCommand
+from plasTeX import ParameterCommand, Macro, NewIf, UnrecognizedMacro
 from plasTeX import glue, muglue, mudimen, dimen, number
 from plasTeX.Logging import getLogger, disableLogging, fileLogging
 
@@ -545,14 +545,9 @@ class TeX(object):
             an integer, the `case' matching this integer will be returned.
 
         """
-        # Since the true content always comes first, we need to set
-        # True to case 0 and False to case 1.
-        elsefound = False
-        if isinstance(which, bool):
-            if which: which = 0
-            else: which = 1
-
         cases = [[]]
+        elsecase = None
+        current = cases[0]
         nesting = 0
         correctly_terminated = False
         iterator = self.itertokens()
@@ -560,35 +555,58 @@ class TeX(object):
         for t in iterator:
             name = getattr(t, 'macroName', '') or ''
             if name == 'newif':
-                cases[-1].append(t)
-                cases[-1].append(next(iterator))
+                current.append(t)
+                current.append(next(iterator))
                 continue
-            elif name.startswith('if'):
-                cases[-1].append(t)
-                nesting += 1
             elif name == 'fi':
                 if not nesting:
                     correctly_terminated = True
                     break
-                cases[-1].append(t)
                 nesting -= 1
             elif not(nesting) and name == 'else':
-                cases.append([])
+                current = elsecase = []
                 continue
             elif not(nesting) and name == 'or':
-                cases.append([])
+                current = []
+                cases.append(current)
                 continue
-            else:
-                cases[-1].append(t)
+            elif name and self.isConditional(t):
+                nesting += 1
+            current.append(t)
 
         if not correctly_terminated:
             log.warning(r'\end occurred when \if was incomplete')
 
-        # else case for ifs without elses
-        cases.append([])
+        # True is the first case
+        if isinstance(which, bool):
+            which = 0 if which else -1
 
         # Push if-selected tokens back into tokenizer
-        self.pushTokens(cases[which])
+        if 0 <= which < len(cases):
+            self.pushTokens(cases[which])
+        elif elsecase:
+            self.pushTokens(elsecase)
+
+    def isConditional(self, token):
+        """
+        Is the given token a command that needs a matching \\fi?
+
+        Required Arguments:
+        token -- unexpanded token
+
+        """
+        name = token.macroName
+        context = self.ownerDocument.context
+        if context.get_let(name) is not name:
+            return False
+        macro = context.get(name)
+        if macro is None:
+            return name.startswith('if')
+        if not isinstance(macro, type):
+            macro = type(macro)
+        if issubclass(macro, UnrecognizedMacro):
+            return name.startswith('if')
+        return issubclass(macro, (IfCommand, NewIf))
 
     def readArgument(self, *args, **kwargs):
         """
-- 
2.43.0


From 7bfb6af36584fe862a73b200a3c8244cc08fdd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 013/119] fix: multiples of fil units, and equal lengths
 written in different units

---
 plasTeX/TeX.py      | 21 ++++++++++++++++--
 plasTeX/__init__.py | 52 +++++++++++++++++++++++++++------------------
 2 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 42996a8..2c5fa1b 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1503,7 +1503,8 @@ class TeX(object):
                 return dimen(sign * dimen(t))
             self.pushToken(t)
             break
-        num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
+        num = sign * self.readDecimal()
+        num = dimen(dimen.scaled(num, self.readUnit(units)))
         ParameterCommand.enable()
         return num
 
@@ -1521,6 +1522,22 @@ class TeX(object):
         Returns:
         `dimen' instance
 
+        """
+        unit = self.readUnit(units)
+        if isinstance(unit, str):
+            return dimen('1%s' % unit)
+        return unit
+
+    def readUnit(self, units):
+        """
+        Read the name of a unit of measure or an internal dimension
+
+        Required Arguments:
+        units -- list of acceptable units of measure
+
+        Returns:
+        name of the unit, or `dimen' instance
+
         """
         self.readOptionalSpaces()
         ParameterCommand.disable()
@@ -1539,7 +1556,7 @@ class TeX(object):
                         ', '.join(units), self.lineInfo, units[0])
             unit = units[0]
         ParameterCommand.enable()
-        return dimen('1%s' % unit)
+        return unit
 
     def readOptionalSigns(self):
         """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index cc52a2b..a0bb4ef 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1,5 +1,6 @@
 __version__ = '3.1'
 
+from fractions import Fraction
 from typing import Optional, Union, List, Callable, Dict
 from plasTeX import Logging, encoding
 from plasTeX.DOM import Element, Text, Node, DocumentFragment, Document
@@ -1275,6 +1276,15 @@ class dimen(float):
 
     units = ['pt', 'pc', 'in', 'bp', 'cm', 'mm', 'dd', 'cc', 'sp', 'ex', 'em']
 
+    # Size of the units in points (numerator, denominator)
+    factors = {
+        'pt': (1, 1), 'pc': (12, 1), 'in': (7227, 100), 'bp': (7227, 7200),
+        'cm': (7227, 254), 'mm': (7227, 2540), 'dd': (1238, 1157),
+        'cc': (14856, 1157),
+        # Just estimates, since I don't know the actual font size
+        'ex': (5, 1), 'em': (11, 1),
+    }
+
     def __new__(cls, v):
         if isinstance(v, Macro):
             return v.__dimen__()
@@ -1286,22 +1296,8 @@ class dimen(float):
                 units.insert(0, v.pop())
             v = float(''.join(v))
             units = ''.join(units)
-            if units == 'pt':
-                v *= 65536
-            elif units == 'pc':
-                v *= 12 * 65536
-            elif units == 'in':
-                v *= 72.27 * 65536
-            elif units == 'bp':
-                v *= (72.27 * 65536) / 72
-            elif units == 'cm':
-                v *= (72.27 * 65536) / 2.54
-            elif units == 'mm':
-                v *= (72.27 * 65536) / 25.4
-            elif units == 'dd':
-                v *= (1238.0 * 65536) / 1157
-            elif units == 'cc':
-                v *= (1238.0 * 12 * 65536) / 1157
+            if units in cls.factors:
+                v = cls.scaled(v, units)
             elif units == 'sp':
                 pass
             # Encode fil(ll)s by adding 2, 4, and 6 billion
@@ -1316,15 +1312,29 @@ class dimen(float):
                 else: v += 6e9
             elif units == 'mu':
                 pass
-            # Just estimates, since I don't know the actual font size
-            elif units == 'ex':
-                v *= 5 * 65536
-            elif units == 'em':
-                v *= 11 * 65536
             else:
                 raise ValueError('Unrecognized units: %s' % units)
         return float.__new__(cls, v)
 
+    @classmethod
+    def scaled(cls, factor, unit):
+        """
+        Get the size in scaled points
+
+        Required Arguments:
+        factor -- the number of units
+        unit -- name of the unit, or a dimension
+
+        """
+        if not isinstance(unit, str):
+            return factor * unit
+        if unit not in cls.factors:
+            return dimen('%r%s' % (float(factor), unit))
+        # Use exact arithmetic so that equal lengths in different units
+        # compare equal
+        num, den = cls.factors[unit]
+        return float(Fraction(repr(float(factor))) * num * 65536 / den)
+
     @property
     def source(self):
         sign = 1
-- 
2.43.0


From 0b1e94d4a751f096f4555d123bf04c3dddd95daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 014/119] fix: environments made of \def\foo and \def\endfoo
 are groups and end with \endfoo

---
 plasTeX/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a0bb4ef..9252d17 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1183,6 +1183,17 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
+        # Used as an environment (i.e. \def\foo, \def\endfoo)
+        if self.macroMode == Macro.MODE_END:
+            res = self.ownerDocument.createElement('end' + self.tagName).invoke(tex)
+            return (res or []) + [EndGroup(' ')]
+        if self.macroMode == Macro.MODE_BEGIN:
+            return [BeginGroup(' ')] + self.expandDefinition(tex)
+
+        return self.expandDefinition(tex)
+
+    def expandDefinition(self, tex):
+        """ Read the arguments and expand the definition """
         if not self.args:
             return expandDef(self.definition, [None])
 
-- 
2.43.0


From 0f9c1835ea23683877e523be700f4975978a29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 015/119] fix: \global makes the definition or alias that
 follows global

---
 plasTeX/Base/TeX/Primitives.py | 18 +++++++++++++++++-
 plasTeX/Context.py             | 26 +++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 3ee74df..3f24e62 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -17,8 +17,23 @@ class protect(Command):
     pass
 
 class global_(Command):
+    """ TeX's \\global prefix """
     macroName = 'global'
 
+    def invoke(self, tex):
+        for t in tex.itertokens():
+            if t.catcode == Token.CC_SPACE or t.macroName == 'long':
+                continue
+            # Make the definition that follows a global one
+            if t.catcode == Token.CC_ESCAPE:
+                obj = self.ownerDocument.createElement(t.macroName)
+                if isinstance(obj, (DefCommand, let)):
+                    obj.local = False
+                    obj.invoke(tex)
+                    return [self, obj]
+            tex.pushToken(t)
+            break
+
 class par(Command):
     """ Paragraph """
     level = Command.PAR_LEVEL
@@ -370,10 +385,11 @@ class ifcsname(IfCommand):
 
 class let(Command):
     """ \\let """
+    local = True
     args = 'name:Tok = value:Tok'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.let(a['name'], a['value'])
+        self.ownerDocument.context.let(a['name'], a['value'], local=self.local)
 
 class char(Command):
     """ \\char """
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index a10fa04..f81db92 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1198,7 +1198,7 @@ class Context(object):
                 break
         return command
 
-    def let(self, dest, source):
+    def let(self, dest, source, local=True):
         """
         Create a \\let
 
@@ -1206,6 +1206,9 @@ class Context(object):
         dest -- the command sequence to create
         source -- the token to set the command sequence equivalent to
 
+        Keyword Arguments:
+        local -- indicates whether this alias is local or global
+
         Examples::
             c.let('bgroup', BeginGroup('{'))
 
@@ -1213,14 +1216,27 @@ class Context(object):
         # Use nodeName instead of macroName to work with Macros as well as
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
+        macro = None
         if source.catcode == Token.CC_ESCAPE:
             name = source.nodeName
             source = self.get_let(name)
             if source is name:
-                self.top.lets.pop(dest.nodeName, None)
-                self.top[dest.nodeName] = self[name]
-                return
-        self.top.lets[dest.nodeName] = source
+                macro = self[name]
+
+        # A global alias replaces the local definitions
+        name = dest.nodeName
+        context = self.top
+        if not local:
+            context = self.contexts[0]
+            for item in self.contexts[1:]:
+                item.lets.pop(name, None)
+                item.pop(name, None)
+
+        if macro is not None:
+            context.lets.pop(name, None)
+            context[name] = macro
+        else:
+            context.lets[name] = source
 
     def chardef(self, name, num):
         """
-- 
2.43.0


From c94c9e52c08101d26fb8cc407eb0d60e67259ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 016/119] fix: \chardef and \mathchardef are local

---
 plasTeX/Context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index f81db92..0214067 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1251,7 +1251,7 @@ class Context(object):
         macrolog.debug('creating chardef (8-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        self.addLocal(name, newclass)
 
     def mathchardef(self, name, num):
         """
@@ -1266,4 +1266,4 @@ class Context(object):
         macrolog.debug('creating mathchardef (16-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        self.addLocal(name, newclass)
-- 
2.43.0


From 9e50f5c59805a0a31f6fb96db69fb297572f41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 017/119] fix: a space ends an integer, what follows it isn't
 looked at

---
 plasTeX/TeX.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 2c5fa1b..ec0b8b9 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1652,13 +1652,13 @@ class TeX(object):
                     break
             # integer constant
             elif t in string.digits:
-                num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
+                num = number(sign * int(t + self.readSequence(string.digits, False)))
                 for t in self:
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
-                    else:
+                    # A space ends the number
+                    elif not optspace or t.catcode != Token.CC_SPACE:
                         self.pushToken(t)
                     break
             # octal constant
@@ -1674,6 +1674,8 @@ class TeX(object):
                 for t in self.itertokens():
                     num = number(sign * ord(t))
                     break
+                if optspace:
+                    self.readOneOptionalSpace()
             break
         ParameterCommand.enable()
         if num is not None:
-- 
2.43.0


From c3f90282530bb8e7eff2cca4f39127ddf8cd8979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 018/119] fix: \end{x} closes the environment, not a
 declaration \x inside of it

---
 plasTeX/Base/TeX/Primitives.py |  1 +
 plasTeX/Context.py             |  8 +++++++-
 plasTeX/__init__.py            | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 3f24e62..eeb4177 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -110,6 +110,7 @@ class MathShift(Command):
             return [current]
 
         inEnv.append(current)
+        current.macroMode = Command.MODE_BEGIN
         mathshiftlog.debug('%s (%s)' % (current.tagName, id(current)))
         self.ownerDocument.context.push(current)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 0214067..66ccb74 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -760,6 +760,11 @@ class Context(object):
                     break
                 self.contexts.pop()
         else:
+            # An \end closes the environment, not a declaration of the
+            # same name inside of it
+            begun = any(type(c.obj) == type(obj) and
+                        c.obj.macroMode == obj.MODE_BEGIN
+                        for c in self.contexts)
             while len(self.contexts) > 1:
                 o = self.contexts[-1].obj
                 # If None, keep going
@@ -773,7 +778,8 @@ class Context(object):
                 elif o is obj.parentNode:
                     break
                 # Found the \begin to our \end
-                elif type(obj) == type(o) and obj.macroMode == obj.MODE_END:
+                elif type(obj) == type(o) and obj.macroMode == obj.MODE_END \
+                        and (o.macroMode == o.MODE_BEGIN or not begun):
                     self.contexts.pop()
                     break
                 # Found the \foo to our \endfoo
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9252d17..925eca0 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -904,6 +904,15 @@ class Environment(Macro):
 
         self.setLinkType()
 
+    def isInsideEnvironment(self, cls):
+        """ Is there an open \\begin of the given class around this node? """
+        node = self.parentNode
+        while node is not None:
+            if type(node) is cls and node.macroMode == Macro.MODE_BEGIN:
+                return True
+            node = node.parentNode
+        return False
+
     def digest(self, tokens):
         """ Absorb all of the tokens that belong to the environment """
         if self.macroMode == Macro.MODE_END:
@@ -925,6 +934,11 @@ class Environment(Macro):
             # Absorb macros until the end of this environment is found
             if item.nodeType == Node.ELEMENT_NODE:
                 if item.macroMode == Macro.MODE_END and type(item) is type(self):
+                    # A declaration doesn't own the \end of the environment
+                    # of the same name that it is in
+                    if self.macroMode == Macro.MODE_NONE and \
+                       self.isInsideEnvironment(type(self)):
+                        tokens.push(item)
                     break
                 item.parentNode = self
                 item.digest(tokens)
-- 
2.43.0


From b0f2fe125ef3b2f92e33ae1711017f5cef741d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 019/119] fix: don't look past the $ that ends a formula

---
 plasTeX/Base/TeX/Primitives.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index eeb4177..fb1fd6e 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -91,16 +91,17 @@ class MathShift(Command):
         inEnv = type(self).inEnv
 
         current = self.ownerDocument.createElement('math')
-        for t in tex.itertokens():
-            if t.catcode == Token.CC_MATHSHIFT:
-                # Case where we have $   $$    $ construction
-                if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-                    tex.pushToken(t)
-                else:
+
+        # Don't look any further at the end of a $...$, what follows has to
+        # be tokenized with the category codes outside of it.  This is also
+        # the case where we have $   $$    $ construction.
+        if not(inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current)):
+            for t in tex.itertokens():
+                if t.catcode == Token.CC_MATHSHIFT:
                     current = self.ownerDocument.createElement('displaymath')
-            else:
-                tex.pushToken(t)
-            break
+                else:
+                    tex.pushToken(t)
+                break
 
         # See if this is the end of the environment
         if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-- 
2.43.0


From b905c55e2a9260b50887a7ffc2cbcb8bd6046a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 020/119] fix: delimiters inside of braces don't end an
 optional argument

---
 plasTeX/TeX.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index ec0b8b9..d98ef01 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -906,9 +906,18 @@ class TeX(object):
             if t.catcode != Token.CC_ESCAPE and \
                (t == begin or str(t) == str(begin)):
                 level = 1
+                # Delimiters inside of { ... } don't count
+                braces = 0
                 for t in tokens:
                     source.append(t)
-                    if t.catcode != Token.CC_ESCAPE and \
+                    if chars != '{}' and t.catcode == Token.CC_BGROUP:
+                        toks.append(t)
+                        braces += 1
+                    elif braces:
+                        toks.append(t)
+                        if t.catcode == Token.CC_EGROUP:
+                            braces -= 1
+                    elif t.catcode != Token.CC_ESCAPE and \
                        (t == begin or str(t) == str(begin)):
                         toks.append(t)
                         level += 1
-- 
2.43.0


From 26a97d739a7a5d3e4eba9428b01a3b9e96fb0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:23 +0000
Subject: [PATCH 021/119] fix: string arguments containing groups or commands
 are their text

---
 plasTeX/TeX.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index d98ef01..9581e8d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1052,7 +1052,10 @@ class TeX(object):
         self.cast()
 
         """
-        return type(self.normalize(tokens))
+        value = self.normalize(tokens)
+        if not isinstance(value, str):
+            value = value.textContent.strip()
+        return type(value)
 
     def castLabel(self, tokens, **kwargs):
         """
-- 
2.43.0


From de3c242d57d3661dc9271c86a05249b6acb8d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:11 +0000
Subject: [PATCH 022/119] fix: = in values, empty entries, and groups in keys
 of dictionary arguments

---
 plasTeX/TeX.py | 52 ++++++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 9581e8d..bcaab31 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1296,17 +1296,26 @@ class TeX(object):
         dictarg = type()
         currentkey = []
         currentvalue = None
+
+        def store():
+            key = self.castString(currentkey)
+            if currentvalue is not None:
+                dictarg[key] = self.normalize(self.cast(currentvalue, subtype))
+            # Ignore empty entries
+            elif key:
+                dictarg[key] = True
+
         while tokens:
             current = tokens.pop(0)
+            part = currentkey if currentvalue is None else currentvalue
 
             if current.nodeType == Macro.ELEMENT_NODE:
-                currentvalue.append(current)
-                continue
+                part.append(current)
 
             # Found grouping
             elif current.catcode == Token.CC_BGROUP:
                 level = 1
-                currentvalue.append(current)
+                part.append(current)
                 while tokens:
                     current = tokens.pop(0)
                     if current.catcode == Token.CC_BGROUP:
@@ -1315,43 +1324,24 @@ class TeX(object):
                         level -= 1
                         if not level:
                             break
-                    currentvalue.append(current)
-                currentvalue.append(current)
-                continue
+                    part.append(current)
+                part.append(current)
 
             # Found end-of-key delimiter
-            if current == '=':
+            elif current == '=' and currentvalue is None:
                 currentvalue = []
 
             # Found end-of-value delimiter
             elif current == delim:
-                # Handle this later
-                pass
-
-            # Extend key
-            elif currentvalue is None:
-                currentkey.append(current)
-
-            # Extend value
-            else:
-                currentvalue.append(current)
-
-            # Found end-of-value delimiter
-            if current == delim or not tokens:
-                currentkey = self.normalize(currentkey)
-                currentvalue = self.normalize(self.cast(currentvalue, subtype))
-                if currentvalue is None:
-                    currentvalue = True
-                dictarg[currentkey] = currentvalue
+                store()
                 currentkey = []
                 currentvalue = None
 
-        if currentkey:
-            currentkey = self.normalize(currentkey)
-            currentvalue = self.normalize(self.cast(currentvalue, subtype))
-            if currentvalue is None:
-                currentvalue = True
-            dictarg[currentkey] = currentvalue
+            # Extend key or value
+            else:
+                part.append(current)
+
+        store()
 
         return dictarg
 
-- 
2.43.0


From d068437a84dfb91e97ce1c28a294d60db53fcad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 023/119] fix: lowercase letters aren't hexadecimal digits

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index bcaab31..d41e5e5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1669,7 +1669,7 @@ class TeX(object):
                                                    default='0', optspace=optspace), 8))
             # hex constant
             elif t == '"':
-                num = number(sign * int('0x' + self.readSequence(string.hexdigits,
+                num = number(sign * int('0x' + self.readSequence('0123456789ABCDEF',
                                                default='0', optspace=optspace), 16))
             # character token
             elif t == '`':
-- 
2.43.0


From 9b84d7ad35625a2eabc6547f3418d7085af850e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 024/119] fix: keep stretch and shrink of glue given by a
 register

---
 plasTeX/TeX.py      | 8 ++++----
 plasTeX/__init__.py | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index d41e5e5..d1a5467 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1694,9 +1694,9 @@ class TeX(object):
         # internal/coerced glue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
+               isinstance(t, ParameterCommand) and isinstance(t.value, glue):
                 ParameterCommand.enable()
-                return glue(sign * glue(t))
+                return t.value.signed(sign)
             self.pushToken(t)
             break
         dim = self.readDimen()
@@ -1724,9 +1724,9 @@ class TeX(object):
         # internal/coerced muglue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
+               isinstance(t, ParameterCommand) and isinstance(t.value, muglue):
                 ParameterCommand.enable()
-                return muglue(sign * muglue(t))
+                return t.value.signed(sign)
             self.pushToken(t)
             break
         dim = self.readMuDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 925eca0..28194aa 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1465,6 +1465,12 @@ class glue(dimen):
         if minus is not None:
             self.shrink = dimen(minus)
 
+    def signed(self, sign):
+        """ Get this glue with the given sign applied to all components """
+        plus, minus = [x if x is None else sign * x
+                       for x in (self.stretch, self.shrink)]
+        return type(self)(sign * self, plus, minus)
+
     @property
     def source(self):
         s = [dimen(self).source]
-- 
2.43.0


From be15133b5220f3e3757c811c618ff93eb76d7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 025/119] fix: a command that follows a number is not a keyword

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index d1a5467..a19799e 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1442,9 +1442,9 @@ class TeX(object):
             matched = []
             letters = list(word.upper())
             for t in self.itertokens():
+                matched.append(t)
                 if t.nodeType == Token.ELEMENT_NODE:
                     break
-                matched.append(t)
                 if t.upper() == letters[0]:
                     letters.pop(0)
                     if not letters:
-- 
2.43.0


From be5c53cd6245cd7744491057c937d04063e4fd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 026/119] fix: integer registers as factor of a unit

---
 plasTeX/TeX.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index a19799e..ecab1d5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1501,8 +1501,12 @@ class TeX(object):
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
+                num = sign * dimen(t)
+                # An integer is the number of units (`sp' if there aren't any)
+                if not isinstance(t.value, dimen):
+                    num = dimen.scaled(num, self.readUnit(units, 'sp'))
                 ParameterCommand.enable()
-                return dimen(sign * dimen(t))
+                return dimen(num)
             self.pushToken(t)
             break
         num = sign * self.readDecimal()
@@ -1530,13 +1534,16 @@ class TeX(object):
             return dimen('1%s' % unit)
         return unit
 
-    def readUnit(self, units):
+    def readUnit(self, units, default=None):
         """
         Read the name of a unit of measure or an internal dimension
 
         Required Arguments:
         units -- list of acceptable units of measure
 
+        Keyword Arguments:
+        default -- unit to use if there is none
+
         Returns:
         name of the unit, or `dimen' instance
 
@@ -1553,7 +1560,9 @@ class TeX(object):
             break
         true = self.readKeyword(['true'])
         unit = self.readKeyword(units)
-        if unit is None:
+        if unit is None and default is not None:
+            unit = default
+        elif unit is None:
             log.warning('Missing unit (expecting %s)%s, treating as `%s`',
                         ', '.join(units), self.lineInfo, units[0])
             unit = units[0]
-- 
2.43.0


From 97959b03e8be0113c44f967f7b23101dbcaa8d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 027/119] fix: parameters stay enabled after an error in an
 argument

---
 plasTeX/TeX.py      | 51 ++++++++++++++++-----------------------------
 plasTeX/__init__.py |  6 ++++--
 2 files changed, 22 insertions(+), 35 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index ecab1d5..c716c5d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -15,7 +15,7 @@ Example:
 """
 from io import IOBase
 from typing import Optional, List
-import contextlib, string, os, sys, plasTeX, subprocess
+import contextlib, functools, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
 from plasTeX.Base.TeX.Primitives import MathShift, IfCommand
@@ -31,6 +31,17 @@ log = getLogger()
 status = getLogger('status')
 _type = type
 
+def parametersDisabled(method):
+    """ Disable the expansion of parameters while the method is running """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        ParameterCommand.disable()
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            ParameterCommand.enable()
+    return wrapper
+
 class bufferediter(object):
     """ Buffered iterator """
     def __init__(self, obj):
@@ -618,6 +629,7 @@ class TeX(object):
         """
         return self.readArgumentAndSource(*args, **kwargs)[0]
 
+    @parametersDisabled
     def readArgumentAndSource(self, spec=None, type=None, subtype=None,
                     delim=',', expanded=False, default=None, parentNode=None,
                     name=None, stripLeadingWhitespace=True,
@@ -669,40 +681,31 @@ class TeX(object):
         if stripLeadingWhitespace:
             self.readOptionalSpaces()
 
-        # Disable expansion of parameters
-        ParameterCommand.disable()
-
         if charsubs is None:
             charsubs = getattr(self.ownerDocument, 'charsubs', [])
 
         if type in ['Dimen','Length','Dimension']:
             n = self.readDimen()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['MuDimen','MuLength']:
             n = self.readMuDimen()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['Glue','Skip']:
             n = self.readGlue()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['MuGlue','MuSkip']:
             n = self.readMuGlue()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['Number','Int','Integer']:
             n = self.readNumber()
-            ParameterCommand.enable()
             return n, n.source
 
         if type in ['Token','Tok']:
             for tok in self.itertokens():
-                ParameterCommand.enable()
                 return tok, tok.source
 
         if type in ['XTok','XToken']:
@@ -712,16 +715,12 @@ class TeX(object):
                     self.pushToken(t)
                     toks, source = self.readToken(True)
                     if len(toks) == 1:
-                        ParameterCommand.enable()
                         return toks[0], toks[0].source
-                    ParameterCommand.enable()
                     return toks, source
                 else:
                     toks = self.expandTokens([t], parentNode=parentNode)
                     if len(toks) == 1:
-                        ParameterCommand.enable()
                         return toks[0], toks[0].source
-                    ParameterCommand.enable()
                     return toks, self.source(toks)
 
         # Definition argument string
@@ -734,7 +733,6 @@ class TeX(object):
                 else:
                     args.append(t)
             else: pass
-            ParameterCommand.enable()
             return args, self.source(args)
 
         if type in ['any']:
@@ -788,7 +786,6 @@ class TeX(object):
             self.ownerDocument.context.catcode(key, value)
 
         if toks is None:
-            ParameterCommand.enable()
             return default, ''
         res = self.cast(toks, type, subtype, delim, parentNode, name)
 
@@ -797,9 +794,6 @@ class TeX(object):
            getattr(res,'nodeType',None) == Macro.DOCUMENT_FRAGMENT_NODE:
             res.normalize(charsubs)
 
-        # Re-enable Parameters
-        ParameterCommand.enable()
-
         if False and parentNode is not None:
             log.warning('%s %s: %s', parentNode.nodeName, name, source)
             log.warning('categories: %s', self.ownerDocument.context.categories)
@@ -1485,6 +1479,7 @@ class TeX(object):
         log.warning('Missing decimal%s, treating as `0`.', self.lineInfo)
         return float(0)
 
+    @parametersDisabled
     def readDimen(self, units=dimen.units):
         """
         Read a dimension from the stream
@@ -1496,7 +1491,6 @@ class TeX(object):
         `dimen' instance
 
         """
-        ParameterCommand.disable()
         sign = self.readOptionalSigns()
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
@@ -1505,13 +1499,11 @@ class TeX(object):
                 # An integer is the number of units (`sp' if there aren't any)
                 if not isinstance(t.value, dimen):
                     num = dimen.scaled(num, self.readUnit(units, 'sp'))
-                ParameterCommand.enable()
                 return dimen(num)
             self.pushToken(t)
             break
         num = sign * self.readDecimal()
         num = dimen(dimen.scaled(num, self.readUnit(units)))
-        ParameterCommand.enable()
         return num
 
     def readMuDimen(self):
@@ -1534,6 +1526,7 @@ class TeX(object):
             return dimen('1%s' % unit)
         return unit
 
+    @parametersDisabled
     def readUnit(self, units, default=None):
         """
         Read the name of a unit of measure or an internal dimension
@@ -1549,12 +1542,10 @@ class TeX(object):
 
         """
         self.readOptionalSpaces()
-        ParameterCommand.disable()
         # internal unit
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
-                ParameterCommand.enable()
                 return dimen(t)
             self.pushToken(t)
             break
@@ -1566,7 +1557,6 @@ class TeX(object):
             log.warning('Missing unit (expecting %s)%s, treating as `%s`',
                         ', '.join(units), self.lineInfo, units[0])
             unit = units[0]
-        ParameterCommand.enable()
         return unit
 
     def readOptionalSigns(self):
@@ -1641,6 +1631,7 @@ class TeX(object):
             return default
         return ''.join(output)
 
+    @parametersDisabled
     def readInteger(self, optspace=True):
         """
         Read an integer from the stream
@@ -1649,7 +1640,6 @@ class TeX(object):
         `number` instance
 
         """
-        ParameterCommand.disable()
         num = None
         sign = self.readOptionalSigns()
 
@@ -1688,7 +1678,6 @@ class TeX(object):
                 if optspace:
                     self.readOneOptionalSpace()
             break
-        ParameterCommand.enable()
         if num is not None:
             return num
         log.warning('Missing number%s, treating as `0`. (%s)', self.lineInfo, t)
@@ -1696,22 +1685,20 @@ class TeX(object):
 
     readNumber = readInteger
 
+    @parametersDisabled
     def readGlue(self):
         """ Read a glue parameter from the stream """
-        ParameterCommand.disable()
         sign = self.readOptionalSigns()
         # internal/coerced glue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand) and isinstance(t.value, glue):
-                ParameterCommand.enable()
                 return t.value.signed(sign)
             self.pushToken(t)
             break
         dim = self.readDimen()
         stretch = self.readStretch()
         shrink = self.readShrink()
-        ParameterCommand.enable()
         return glue(sign*dim, stretch, shrink)
 
     def readStretch(self):
@@ -1726,22 +1713,20 @@ class TeX(object):
             return self.readDimen(units=dimen.units+['filll','fill','fil'])
         return None
 
+    @parametersDisabled
     def readMuGlue(self):
         """ Read a muglue parameter from the stream """
-        ParameterCommand.disable()
         sign = self.readOptionalSigns()
         # internal/coerced muglue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand) and isinstance(t.value, muglue):
-                ParameterCommand.enable()
                 return t.value.signed(sign)
             self.pushToken(t)
             break
         dim = self.readMuDimen()
         stretch = self.readMuStretch()
         shrink = self.readMuShrink()
-        ParameterCommand.enable()
         return muglue(sign*dim, stretch, shrink)
 
     def readMuStretch(self):
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 28194aa..61d0098 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1499,8 +1499,10 @@ class ParameterCommand(Command):
             # Disable invoke() in parameters nested in our arguments.
             # We don't want them to invoke, we want them to set our value.
             ParameterCommand.enabled = False
-            type(self).value = self.parse(tex)['value']
-            ParameterCommand.enabled = True
+            try:
+                type(self).value = self.parse(tex)['value']
+            finally:
+                ParameterCommand.enabled = True
 
     @classmethod
     def enable(cls):
-- 
2.43.0


From bd694434643e8e0afdcfd99b8436892a220c77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 028/119] fix: an undefined command is not the delimiter of a
 list argument

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c716c5d..0b559bb 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1240,7 +1240,7 @@ class TeX(object):
             current = tokens.pop(0)
 
             # Item delimiter
-            if current == delim:
+            if current.nodeType != Macro.ELEMENT_NODE and current == delim:
                 listarg.append([])
 
             # Found grouping
-- 
2.43.0


From 2448964eca4dc127084f05831d8cc616b90f2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 029/119] fix: character codes of commands in integer arguments

---
 plasTeX/TeX.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 0b559bb..ae18eb9 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1673,6 +1673,9 @@ class TeX(object):
             # character token
             elif t == '`':
                 for t in self.itertokens():
+                    # Expanded already (e.g. \% in an argument)
+                    if t.nodeType == Macro.ELEMENT_NODE:
+                        t = t.nodeName.split('::')[-1]
                     num = number(sign * ord(t))
                     break
                 if optspace:
-- 
2.43.0


From 9514af0e7c7d749c864141bf6e52f23c97b2ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 030/119] fix: a group or formula after a number isn't started
 while the number is read

---
 plasTeX/TeX.py | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index ae18eb9..3a7f4e5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -296,6 +296,20 @@ class TeX(object):
         Returns:
         generator that iterates through the expanded tokens
 
+        """
+        return self.expandUntil()
+
+    def expandUntil(self, stop=()):
+        """
+        Iterate over tokens while expanding them
+
+        Keyword Arguments:
+        stop -- category codes of the characters to stop at, these
+            characters stay in the stream
+
+        Returns:
+        generator that iterates through the expanded tokens
+
         """
         # Cache variables before starting the generator
         next = self.itertokens().__next__
@@ -320,6 +334,10 @@ class TeX(object):
             elif token.nodeType == ELEMENT_NODE:
                 pass
 
+            elif token.catcode in stop:
+                pushToken(token)
+                return
+
             # Alias of a character created by \let
             elif isinstance(token, EscapeSequence) and get_let(token) is not token:
                 pushToken(get_let(token))
@@ -1400,6 +1418,10 @@ class TeX(object):
 # Parsing helper methods for parsing numbers, spaces, dimens, etc.
 #
 
+    # Characters that are neither part of a number, nor expanded
+    notnumber = (Token.CC_BGROUP, Token.CC_EGROUP, Token.CC_MATHSHIFT,
+                 Token.CC_ALIGNMENT, Token.CC_SUPER, Token.CC_SUB)
+
     def readOptionalSpaces(self):
         """ Remove all whitespace """
         tokens = []
@@ -1453,13 +1475,13 @@ class TeX(object):
     def readDecimal(self):
         """ Read a decimal number from the stream """
         sign = self.readOptionalSigns()
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Token.ELEMENT_NODE:
                 self.pushToken(t)
                 break
             if t in string.digits:
                 num = t + self.readSequence(string.digits, False)
-                for t in self:
+                for t in self.expandUntil(self.notnumber):
                     if t.nodeType == Token.ELEMENT_NODE:
                         self.pushToken(t)
                         return sign * float(num)
@@ -1492,7 +1514,7 @@ class TeX(object):
 
         """
         sign = self.readOptionalSigns()
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 num = sign * dimen(t)
@@ -1543,7 +1565,7 @@ class TeX(object):
         """
         self.readOptionalSpaces()
         # internal unit
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 return dimen(t)
@@ -1569,7 +1591,7 @@ class TeX(object):
         """
         sign = 1
         self.readOptionalSpaces()
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Token.ELEMENT_NODE:
                 self.pushToken(t)
                 break
@@ -1616,7 +1638,7 @@ class TeX(object):
 
         """
         output = []
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Macro.ELEMENT_NODE:
                 self.pushToken(t)
                 break
@@ -1640,10 +1662,10 @@ class TeX(object):
         `number` instance
 
         """
-        num = None
+        num = t = None
         sign = self.readOptionalSigns()
 
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             # internal/coerced integers
             if t.nodeType == Macro.ELEMENT_NODE:
                 if isinstance(t, ParameterCommand):
@@ -1654,7 +1676,7 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits, False)))
-                for t in self:
+                for t in self.expandUntil(self.notnumber):
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
@@ -1693,7 +1715,7 @@ class TeX(object):
         """ Read a glue parameter from the stream """
         sign = self.readOptionalSigns()
         # internal/coerced glue
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand) and isinstance(t.value, glue):
                 return t.value.signed(sign)
@@ -1721,7 +1743,7 @@ class TeX(object):
         """ Read a muglue parameter from the stream """
         sign = self.readOptionalSigns()
         # internal/coerced muglue
-        for t in self:
+        for t in self.expandUntil(self.notnumber):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand) and isinstance(t.value, muglue):
                 return t.value.signed(sign)
-- 
2.43.0


From 384d2054110e637f1a2a3d58eef79186d2ef599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 031/119] fix: \not binds tighter than \and and \or, and may
 follow them

---
 plasTeX/Packages/ifthen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 645172b..1854bc9 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -80,8 +80,10 @@ class ifthenelse(Command):
     def prec(self, tok: Union[Token, number]) -> int:
         """Return the operator precedence for the given token"""
         if tok in ['>', '<', '=']:
+            return 3
+        if isinstance(tok, (_not, NOT)):
             return 2
-        if isinstance(tok, (_and, AND, _or, OR, _not, NOT)):
+        if isinstance(tok, (_and, AND, _or, OR)):
             return 1
         return 0
 
@@ -113,6 +115,9 @@ class ifthenelse(Command):
                         break
                     postfix.append(stack.pop())
                 stack.pop()  # (
+            elif isinstance(tok, (_not, NOT)):
+                # The operand of a prefix operator comes next
+                stack.append(tok)
             else:
                 # Handle operators and precedence
                 while stack and self.prec(tok) <= self.prec(stack[-1]):
-- 
2.43.0


From 72e843f346792485184fd94e52a4f14cfe9f79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 032/119] fix: \( and \) group the test of \whiledo

---
 plasTeX/Packages/ifthen.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 1854bc9..ce7ab8d 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -4,6 +4,8 @@ A Python implementation of the ifthen package.
 
 """
 
+from contextlib import contextmanager
+
 from plasTeX import Command, TeXFragment, number
 from plasTeX.Tokenizer import Token, Space
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
@@ -47,6 +49,17 @@ class OR(Command):
     pass
 
 
+@contextmanager
+def disabledMath():
+    r"""Use \( and \) for grouping instead of entering math mode"""
+    saved = BeginMath.disableMath, EndMath.disableMath
+    BeginMath.disableMath = EndMath.disableMath = True
+    try:
+        yield
+    finally:
+        BeginMath.disableMath, EndMath.disableMath = saved
+
+
 class ifthenelse(Command):
     r"""The \ifthenelse macro.
 
@@ -68,9 +81,8 @@ class ifthenelse(Command):
 
     def invoke(self, tex) -> List[Token]:
         # Temporarily disable entering math mode with \( and \)
-        BeginMath.disableMath = EndMath.disableMath = True
-        a = self.parse(tex)
-        BeginMath.disableMath = EndMath.disableMath = False
+        with disabledMath():
+            a = self.parse(tex)
         if isinstance(a['test'], TeXFragment):
             test_result = self.evaluate(tex, a['test'])
         else:
@@ -193,7 +205,8 @@ class whiledo(ifthenelse):
         a = self.parse(tex)
         tok: List[Token] = []
         while True:
-            expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            with disabledMath():
+                expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
             if isinstance(expanded, TeXFragment):
                 test_result = self.evaluate(tex, expanded)
             else:
-- 
2.43.0


From d3864ff41dfbe12b107d6f4d816e893661a6751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 033/119] fix: booleans are the switches \if<name>

---
 plasTeX/Packages/ifthen.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index ce7ab8d..abc1257 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -222,9 +222,9 @@ class boolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
-            if self.ownerDocument.context[a['name']].state:
+        name = 'if' + self.parse(tex)['name']
+        if name in self.ownerDocument.context:
+            if self.ownerDocument.context[name].state:
                 return [_true()]
             else:
                 return [_false()]
@@ -301,7 +301,7 @@ class newboolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        self.ownerDocument.context.newif(self.parse(tex)['name'])
+        self.ownerDocument.context.newif('if' + self.parse(tex)['name'])
 
 
 class provideboolean(newboolean):
@@ -314,10 +314,11 @@ class setboolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
             if a['value'].lower() == 'true':
-                self.ownerDocument.context[a['name']].setTrue()
+                self.ownerDocument.context[name].setTrue()
             elif a['value'].lower() == 'false':
-                self.ownerDocument.context[a['name']].setFalse()
+                self.ownerDocument.context[name].setFalse()
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
-- 
2.43.0


From 38e02e4da0e8401dd289dd03f80a4fd3e387e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 034/119] fix: definitions in the body of \whiledo are not
 local to it

---
 plasTeX/Packages/ifthen.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index abc1257..1b0ccda 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -7,7 +7,7 @@ A Python implementation of the ifthen package.
 from contextlib import contextmanager
 
 from plasTeX import Command, TeXFragment, number
-from plasTeX.Tokenizer import Token, Space
+from plasTeX.Tokenizer import Token, Space, BeginGroup, EndGroup, EscapeSequence
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
 from typing import Union, List
 
@@ -196,25 +196,26 @@ class ifthenelse(Command):
 class whiledo(ifthenelse):
     r"""The \whiledo macro.
 
-    Similar to ifthenelse, but repeatedy append the second argument to the
-    resulting expansion until the first argument expands and evaluates to false.
+    Similar to ifthenelse, but repeatedly process the second argument until
+    the first argument expands and evaluates to false.
     """
     args = 'test:nox operations:nox'
 
     def invoke(self, tex) -> List[Token]:
         a = self.parse(tex)
-        tok: List[Token] = []
-        while True:
-            with disabledMath():
-                expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
-            if isinstance(expanded, TeXFragment):
-                test_result = self.evaluate(tex, expanded)
-            else:
-                test_result = self.evaluate(tex, [expanded])
-            if not test_result.state:
-                break
-            tok += tex.expandTokens(a['operations'], parentNode=self.parentNode)
-        return tok
+        with disabledMath():
+            expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+        if isinstance(expanded, TeXFragment):
+            test_result = self.evaluate(tex, expanded)
+        else:
+            test_result = self.evaluate(tex, [expanded])
+        if not test_result.state:
+            return []
+        # Process the body, then start over
+        begin, end = BeginGroup('{'), EndGroup('}')
+        return (list(a['operations']) + [EscapeSequence('whiledo')]
+                + [begin] + list(a['test']) + [end]
+                + [begin] + list(a['operations']) + [end])
 
 
 class boolean(Command):
-- 
2.43.0


From 75eb5bf7cda5c4e7e6fe546b959305993ac63313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 035/119] fix: registers and non-decimal constants as operands
 of a test

---
 plasTeX/Packages/ifthen.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 1b0ccda..a0fd951 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -7,7 +7,7 @@ A Python implementation of the ifthen package.
 from contextlib import contextmanager
 
 from plasTeX import Command, TeXFragment, number
-from plasTeX.Tokenizer import Token, Space, BeginGroup, EndGroup, EscapeSequence
+from plasTeX.Tokenizer import Token, BeginGroup, EndGroup, EscapeSequence
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
 from typing import Union, List
 
@@ -99,23 +99,32 @@ class ifthenelse(Command):
             return 1
         return 0
 
+    def isOperator(self, tok: Token) -> bool:
+        """Is this an operator, a parenthesis, or a boolean?"""
+        if tok.nodeType == Command.ELEMENT_NODE:
+            return tok.nodeName in ['(', ')'] or self.prec(tok) != 0
+        return isinstance(tok, _boolToken) or self.prec(tok) != 0
+
     def evaluate(self, tex, test: Union[List[Token], TeXFragment]) -> _boolToken:
         """Reorganise a test expression into postfix and evaluate it."""
         stack: List[Union[Token, number]] = []
         postfix: List[Union[Token, number]] = []
         test_iter = iter(test)
         for tok in test_iter:
-            # Handle literal integers with tex.readNumber
+            # Handle integers with tex.readNumber
             number_tokens: List[Token] = []
-            while tok.catcode == Token.CC_OTHER and (tok not in ['<', '>', '=']):
-                number_tokens.append(tok)
-                tok = next(test_iter, Space())
+            while not self.isOperator(tok):
+                if number_tokens or tok.catcode != Token.CC_SPACE:
+                    number_tokens.append(tok)
+                tok = next(test_iter, None)
+                if tok is None:
+                    break
             if number_tokens:
                 value: int = tex.readInternalType(number_tokens, tex.readNumber)
                 postfix.append(number(value))
 
             # Handle parentheses and booleans
-            if tok.catcode == Token.CC_SPACE or tok is None:
+            if tok is None:
                 pass
             elif isinstance(tok, _boolToken):
                 postfix.append(tok)
-- 
2.43.0


From b24ebae9a9b1c99635ea31a225cc377e69193c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:10 +0000
Subject: [PATCH 036/119] fix: \boolean{true} and \boolean{false}

---
 plasTeX/Packages/ifthen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index a0fd951..3afd0b8 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -233,6 +233,10 @@ class boolean(Command):
 
     def invoke(self, tex):
         name = 'if' + self.parse(tex)['name']
+        if name == 'iftrue':
+            return [_true()]
+        if name == 'iffalse':
+            return [_false()]
         if name in self.ownerDocument.context:
             if self.ownerDocument.context[name].state:
                 return [_true()]
-- 
2.43.0


From 5a5a6ba6bb883f0500c04aebbd972e8a734eb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 037/119] fix: limit the number of words before forbidden
 characters are replaced

The blanks are forbidden characters by default, so $title(2) never limited
anything; an empty value raised an IndexError.
---
 plasTeX/Filenames.py | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..86ad77f 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -165,11 +165,6 @@ class Filenames(object):
         # Return static filenames
         for item in static:
             currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
             for key, format in keysre.findall(item):
                 # Supply a file number as needed
                 if key == 'num':
@@ -177,12 +172,12 @@ class Filenames(object):
                 # Limit other variables to specified number of words
                 elif format and key in currentns:
                     value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
+                    currentns[key] = ' '.join(value[:int(format)])
+            for key, value in list(currentns.items()):
+                if self.charsub:
+                    for char in self.charsub[0]:
+                        value = value.replace(char, self.charsub[1])
+                currentns[key] = value
             try:
                 # Strip formats
                 item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
@@ -207,11 +202,6 @@ class Filenames(object):
             passes += 1
             for item in wildcard:
                 currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
                 for key, format in keysre.findall(item):
                     # Supply a file number as needed
                     if key == 'num':
@@ -219,12 +209,12 @@ class Filenames(object):
                     # Limit other variables to specified number of words
                     elif format and key in currentns:
                         value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
+                        currentns[key] = ' '.join(value[:int(format)])
+                for key, value in list(currentns.items()):
+                    if self.charsub:
+                        for char in self.charsub[0]:
+                            value = value.replace(char, self.charsub[1])
+                    currentns[key] = value
                 try:
                     # Strip formats
                     item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-- 
2.43.0


From ba207aa018bcb26a8ecb904cfa7cae97321b16ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:48 +0000
Subject: [PATCH 038/119] fix: a variable may be used with different formats in
 one filename

---
 plasTeX/Filenames.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 86ad77f..5d7cb0e 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -1,5 +1,9 @@
 import re, string, os.path
 
+class FilenameTemplate(string.Template):
+    """ Template whose variables can carry a format: ${name.format} """
+    braceidpattern = r'\w+(?:\.\d+)?'
+
 class Filenames(object):
 
     def __init__(self, spec, charsub=None, variables=None, extension='',
@@ -168,21 +172,21 @@ class Filenames(object):
             for key, format in keysre.findall(item):
                 # Supply a file number as needed
                 if key == 'num':
-                    currentns['num'] = ('%%.%sd' % format) % num
+                    currentns['num'] = str(num)
+                    if format:
+                        currentns['num.' + format] = ('%%.%sd' % format) % num
                 # Limit other variables to specified number of words
                 elif format and key in currentns:
                     value = currentns[key].split()
-                    currentns[key] = ' '.join(value[:int(format)])
+                    currentns[key + '.' + format] = ' '.join(value[:int(format)])
             for key, value in list(currentns.items()):
                 if self.charsub:
                     for char in self.charsub[0]:
                         value = value.replace(char, self.charsub[1])
                 currentns[key] = value
             try:
-                # Strip formats
-                item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
                 # Do variable substitution
-                result = string.Template(item).substitute(currentns)
+                result = FilenameTemplate(item).substitute(currentns)
                 if 'num' in currentns:
                     num += 1
                 self.variables.clear()
@@ -205,21 +209,21 @@ class Filenames(object):
                 for key, format in keysre.findall(item):
                     # Supply a file number as needed
                     if key == 'num':
-                        currentns['num'] = ('%%.%sd' % format) % num
+                        currentns['num'] = str(num)
+                        if format:
+                            currentns['num.' + format] = ('%%.%sd' % format) % num
                     # Limit other variables to specified number of words
                     elif format and key in currentns:
                         value = currentns[key].split()
-                        currentns[key] = ' '.join(value[:int(format)])
+                        currentns[key + '.' + format] = ' '.join(value[:int(format)])
                 for key, value in list(currentns.items()):
                     if self.charsub:
                         for char in self.charsub[0]:
                             value = value.replace(char, self.charsub[1])
                     currentns[key] = value
                 try:
-                    # Strip formats
-                    item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
                     # Do variable substitution
-                    result = string.Template(item).substitute(currentns)
+                    result = FilenameTemplate(item).substitute(currentns)
                     if 'num' in currentns:
                         num += 1
                     self.variables.clear()
-- 
2.43.0


From a3d4aaef64ea9f4c12100fc4cd7a1322bf08166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 039/119] fix: bindings of a filename request hold for all
 alternatives, and for that request only

The namespace was reset by a candidate that was already taken, and the
bindings of the first request were kept for all following ones.
---
 plasTeX/Filenames.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 5d7cb0e..9a091bb 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -81,6 +81,8 @@ class Filenames(object):
         self.variables = variables or {}
         self.extension = extension
         self.invalid = invalid or {}
+        # The namespace that the variables are reset to after each filename
+        self.initial = self.variables.copy()
         self.newFilename = self._newFilename()
 
     def parseFilenames(self, spec):
@@ -143,8 +145,6 @@ class Filenames(object):
 
     def _newFilename(self):
         """ Generator that generates new filenames """
-        g = self.variables.copy()
-
         # Split filenames into static and wildcard groups
         static = []
         wildcard = []
@@ -189,11 +189,11 @@ class Filenames(object):
                 result = FilenameTemplate(item).substitute(currentns)
                 if 'num' in currentns:
                     num += 1
-                self.variables.clear()
-                self.variables.update(g)
                 result = self.addExtension(result)
                 if result not in self.invalid:
                     self.invalid[result] = None
+                    self.variables.clear()
+                    self.variables.update(self.initial)
                     yield result
             except KeyError:
                 continue
@@ -226,11 +226,11 @@ class Filenames(object):
                     result = FilenameTemplate(item).substitute(currentns)
                     if 'num' in currentns:
                         num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
                     result = self.addExtension(result)
                     if result not in self.invalid:
                         self.invalid[result] = None
+                        self.variables.clear()
+                        self.variables.update(self.initial)
                         yield result
                     else:
                         continue
-- 
2.43.0


From 5ea3abfa3adc9f8e6069ced19645b815ccf7234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 040/119] fix: the filename generator keeps working after many
 requests and after an error

The number of attempts was counted over all requests, more than 100 reserved
names in a row were an error, and after the error None was returned.
---
 plasTeX/Filenames.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 9a091bb..f3d4db7 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -134,7 +134,10 @@ class Filenames(object):
 
     def __next__(self):
         for name in self.newFilename:
+            if name is None:
+                break
             return name
+        raise ValueError('Filename could not be created.')
 
     def addExtension(self, filename):
         """ Add a file extension to the filename if none exists """
@@ -232,6 +235,7 @@ class Filenames(object):
                         self.variables.clear()
                         self.variables.update(self.initial)
                         yield result
+                        passes = 0
                     else:
                         continue
                     break
@@ -240,9 +244,11 @@ class Filenames(object):
                         del self.variables['num']
                     continue
             else:
-                # We tried 100 different names and still don't have a unique
-                # one, we better just bail out.
-                if passes > 100:
-                    break
-
-        raise ValueError('Filename could not be created.')
+                # We tried more than 100 different names and still don't
+                # have a unique one, we better just bail out.  (A number is
+                # unique once it is past those that are already taken.)
+                if passes > 100 + len(self.invalid):
+                    passes = 0
+                    self.variables.clear()
+                    self.variables.update(self.initial)
+                    yield None
-- 
2.43.0


From 98e341cd3d9527451ec97bd6f9f8b6c576d34c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 041/119] fix: the parent of a node in a fragment is the
 fragment

The nodes appended to a fragment got the parent of the fragment (None for a
detached one), so they had no siblings; fragments in attributes didn't know
the element they belong to.
---
 plasTeX/DOM/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..02d4a0c 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
@@ -921,7 +923,8 @@ class Node(object):
             self.childNodes.append(newChild)
 
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
+            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE and \
+               self.isSelfAttribute():
                 newChild.parentNode = self.parentNode
             else:
                 newChild.parentNode = self
@@ -951,7 +954,8 @@ class Node(object):
         else:
             self.childNodes.insert(i, newChild)
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
+            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE and \
+               self.isSelfAttribute():
                 newChild.parentNode = self.parentNode
             else:
                 newChild.parentNode = self
@@ -1374,6 +1378,16 @@ class DocumentFragment(Node):
 
     getElementsByTagName = _getElementsByTagName
 
+    def isSelfAttribute(self):
+        """
+        Is this fragment the `self` attribute of its parent?
+
+        The nodes in such a fragment are the children of the parent.
+
+        """
+        attrs = getattr(self.parentNode, 'attributes', None)
+        return bool(attrs) and attrs.get('self') is self
+
 class Attr(Node):
     """
     Attr
-- 
2.43.0


From 021c1daed636d3a1ffcb7425a9cba7c3a907998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 042/119] fix: item assignment and fragment insertion at
 positions from the end

node[-1] = x removed the first child, and an index out of range added x
before the error.
---
 plasTeX/DOM/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 02d4a0c..1ef51eb 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -948,6 +948,9 @@ class Node(object):
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            # Positions from the end move with every item
+            if i < 0:
+                i = max(0, i + len(self))
             for item in newChild:
                 self.insert(i, item, setParent=setParent)
                 i += 1
@@ -973,6 +976,11 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        if not(isinstance(i, slice)):
+            if i < 0:
+                i += len(self)
+            if not(0 <= i < len(self)):
+                raise IndexError('assignment index out of range')
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From 0cb67d23120e54191330d249811d40e8e3cfe945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 043/119] fix: a node that was removed has no parent

---
 plasTeX/DOM/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 1ef51eb..8b665ce 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -899,8 +899,11 @@ class Node(object):
         the item removed from the list
 
         """
-        try: return self.childNodes.pop(index)
+        try: item = self.childNodes.pop(index)
         except: raise IndexError('object has no childNodes')
+        if hasattr(item, 'parentNode'):
+            item.parentNode = None
+        return item
 
     def append(self, newChild, setParent=True):
         """
-- 
2.43.0


From 6f7b92f020dffc84f18d57cf660d001b42c2c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 044/119] fix: clones share no nodes with the original

A shallow clone took the children of the original, the values of the
attributes were moved to the clone, and the content of a `self' attribute was
appended to the original.
---
 plasTeX/DOM/__init__.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 8b665ce..9637b4b 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -545,6 +545,16 @@ def _nextSibling(self):
             next = True
     return None
 
+def _cloneValue(value):
+    """ Make a copy of the value of an attribute that shares no nodes with it """
+    if isinstance(value, Node):
+        return value.cloneNode(True)
+    if type(value) is list:
+        return [_cloneValue(x) for x in value]
+    if type(value) is dict:
+        return dict((_cloneValue(x), _cloneValue(y)) for x, y in value.items())
+    return value
+
 def xmlstr(obj):
     """ Escape special characters to create a legal xml string """
     if isinstance(obj, str):
@@ -1058,20 +1068,19 @@ class Node(object):
         except: pass
 #       node.nodeValue = self.nodeValue
 #       node.nodeType = self.nodeType
-        node.parentNode = self.parentNode
+        node.parentNode = None
         node.ownerDocument = self.ownerDocument
-        if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
+        if node.attributes is not None and self.attributes is not None:
+            for key, value in self.attributes.items():
+                # The children are cloned below
+                if key == 'self' and value is self.childNodes:
+                    value = type(value)()
+                    if isinstance(value, Node):
+                        value.ownerDocument = self.ownerDocument
+                node.attributes[key] = _cloneValue(value)
+        if deep and self.hasChildNodes():
+            for x in self.childNodes:
+                node.append(x.cloneNode(deep))
         return node
 
     def normalize(self, charsubs=None):
@@ -1701,7 +1710,7 @@ class CharacterData(str, Node):
     def cloneNode(self, deep=True):
         o = type(self)(self)
         o.ownerDocument = self.ownerDocument
-        o.parentNode = self.parentNode
+        o.parentNode = None
         return o
 
     @property
-- 
2.43.0


From 53a47a4a1663de5adb9e0edd9727c351af79f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 045/119] fix: document position of nodes whose common ancestor
 isn't the root

---
 plasTeX/DOM/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 9637b4b..6b6a23a 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -470,12 +470,18 @@ def _compareDocumentPosition(self, other):
     if self is other:
         return Node.DOCUMENT_POSITION_IMPLEMENTATION_SPECIFIC
 
+    # The children of such a fragment are the children of its parent
+    def isSelfAttribute(node):
+        return node.nodeType == Node.DOCUMENT_FRAGMENT_NODE and \
+               node.isSelfAttribute()
+
     sparents = []
     parent = self
     while parent is not None:
         if parent is other:
             return Node.DOCUMENT_POSITION_CONTAINS
-        sparents.append(parent)
+        if parent is self or not isSelfAttribute(parent):
+            sparents.append(parent)
         parent = parent.parentNode
 
     oparents = []
@@ -483,7 +489,8 @@ def _compareDocumentPosition(self, other):
     while parent is not None:
         if parent is self:
             return Node.DOCUMENT_POSITION_CONTAINED_BY
-        oparents.append(parent)
+        if parent is other or not isSelfAttribute(parent):
+            oparents.append(parent)
         parent = parent.parentNode
 
     sparents.reverse()
@@ -494,6 +501,9 @@ def _compareDocumentPosition(self, other):
             if sparent is oparent:
                 s = sparents[i+1]
                 o = oparents[j+1]
+                # Look for the last common ancestor
+                if s is o:
+                    continue
                 for item in sparent:
                    if item is s:
                        return Node.DOCUMENT_POSITION_FOLLOWING
-- 
2.43.0


From 84ebad5f1506f3b8b8aea51741d4358ca2bb2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 046/119] fix: lookup by name finds the content of a `self'
 attribute once, and nodes inside of list attributes

---
 plasTeX/DOM/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 6b6a23a..7864e7f 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1305,6 +1305,9 @@ def _getElementsByTagName(self, tagname):
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
         for item in list(self.attributes.values()):
+            # The children are looked at below
+            if item is self.childNodes:
+                continue
             if getattr(item, 'tagName', None) in tagname:
                  output.append(item)
             if hasattr(item, 'getElementsByTagName'):
@@ -1313,14 +1316,14 @@ def _getElementsByTagName(self, tagname):
                 for e in item:
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
             elif isinstance(item, dict):
                 for e in list(item.values()):
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
-- 
2.43.0


From 5c646485688466fc33f4688a22fb02dcf1487ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 047/119] fix: lookup by ID in attributes

---
 plasTeX/DOM/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 7864e7f..13f5fe2 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1352,7 +1352,7 @@ def _getElementById(self, elementId):
             if id(item) == elementId:
                  return item
             if hasattr(item, 'getElementById'):
-                e = item.getElementsById(elementId)
+                e = item.getElementById(elementId)
                 if e is not None:
                     return e
             elif isinstance(item, list):
-- 
2.43.0


From 8ff71515c66e6e8e733b095db6407a4394d9bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 048/119] fix: looking at the preamble doesn't take its nodes
 out of the document

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 61d0098..c5aef07 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -874,7 +874,7 @@ class TeXDocument(Document):
         for item in self:
             if item.level == Macro.DOCUMENT_LEVEL:
                 break
-            output.append(item)
+            output.append(item, setParent=False)
         return output
 
     @property
-- 
2.43.0


From 000f5441487c3a6d418bdf9bdea11c94d4061faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 049/119] fix: separators in the format of an index entry don't
 separate anything

---
 plasTeX/Base/LaTeX/Index.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..bc5b043 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -294,17 +294,17 @@ class index(Command):
                         current.append(tok)
                         break
                 # Entry separator
-                elif tok == '!':
+                elif tok == '!' and current is not format:
                     key.append(current)
                     if len(sortkey) < len(key):
                         sortkey.append(current)
                     current = []
                 # Sort key separator
-                elif tok == '@':
+                elif tok == '@' and current is not format:
                     sortkey.append(current)
                     current = []
                 # Format separator
-                elif tok == '|':
+                elif tok == '|' and current is not format:
                     key.append(current)
                     if len(sortkey) < len(key):
                         sortkey.append(current)
@@ -316,7 +316,7 @@ class index(Command):
             current.append(tok)
 
         # Make sure to get the stuff at the end
-        if not format:
+        if current is not format:
             key.append(current)
             if len(sortkey) < len(key):
                 sortkey.append(current)
-- 
2.43.0


From 04f2ff46a378ec2e0379612249d4ad7cf07a2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 050/119] fix: index groups of ligatures and of symbols without
 transliteration

---
 plasTeX/Base/LaTeX/Index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index bc5b043..e11ce53 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -84,8 +84,9 @@ class IndexUtils(object):
         current = ''
         for item in self:
             try:
-                label = title = unidecode(item.sortkey[0]).upper()
-                if title in encoding.stringletters():
+                # A ligature belongs to its first letter
+                label = title = unidecode(item.sortkey[0])[:1].upper()
+                if title and title in encoding.stringletters():
                     pass
                 elif title == '_':
                      title = '_ (Underscore)'
-- 
2.43.0


From 6ad508a102649c258181b7c60585409e4ca20ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 051/119] fix: keys that differ in their markup only have an
 order in the index

---
 plasTeX/Base/LaTeX/Index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index e11ce53..8ca5067 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -411,10 +411,12 @@ class IndexEntry(object):
     def __lt__(self, other):
         key_self = list(zip([collator(x) for x in self.sortkey if isinstance(x, str)],
                             [collator(x.textContent) for x in self.key],
-                            self.key))
+                            self.sortkey,
+                            [x.source for x in self.key]))
         key_other = list(zip([collator(x) for x in other.sortkey if isinstance(x, str)],
                              [collator(x.textContent) for x in other.key],
-                             other.key))
+                             other.sortkey,
+                             [x.source for x in other.key]))
         if key_self < key_other:
             return True
         elif key_self > key_other:
-- 
2.43.0


From aa3c62b406937fbff379674595d508b6260db106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 052/119] fix: entries after \printindex are in the index

The index is built again when the whole document has been read.
---
 plasTeX/Base/LaTeX/Index.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 8ca5067..abca1b0 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -174,7 +174,15 @@ class IndexUtils(object):
                 self.pop()
         else:
             Command.digest(self, tokens)
+        self.buildIndex()
+        # There may be entries in the rest of the document
+        self.ownerDocument.addPostParseCallbacks(10, self.buildIndex)
+
+    def buildIndex(self):
+        """ Sort the entries found so far and merge them into the index """
         doc = self.ownerDocument
+        while self.childNodes:
+            self.pop()
         current = self
         entries = sorted(self.ownerDocument.userdata.get('index', []))
         prev = IndexEntry([], None)
@@ -214,7 +222,10 @@ class IndexUtils(object):
 
             # Add the current page and format it
             current.pages.append(IndexDestination(item.type, item.node))
-            if item.format is not None:
+            if item.formatted:
+                # Later entries don't change the number of an earlier one
+                pass
+            elif item.format is not None:
                 text = doc.createTextNode(str(len(current.pages)))
                 ipn = item.format.getElementsByTagName('index-page-number')
                 if ipn:
@@ -224,6 +235,7 @@ class IndexUtils(object):
             else:
                 text = doc.createTextNode(str(len(current.pages)))
                 item.node.append(text)
+            item.formatted = True
             prev = item
 
 class IndexDestination(object):
@@ -395,6 +407,8 @@ class IndexEntry(object):
         self.format = format
         self.node = node
         self.type = type
+        # Has the page number been added to the node?
+        self.formatted = False
 
     @property
     def see(self):
-- 
2.43.0


From 175e7f491a6070cce7c22d9ec6f1e490fe06ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:46 +0000
Subject: [PATCH 053/119] fix: symbols are not grouped under the first letter
 of their transliteration

---
 plasTeX/Base/LaTeX/Index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index abca1b0..918c45a 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -85,8 +85,9 @@ class IndexUtils(object):
         for item in self:
             try:
                 # A ligature belongs to its first letter
-                label = title = unidecode(item.sortkey[0])[:1].upper()
-                if title and title in encoding.stringletters():
+                initial = item.sortkey[0]
+                label = title = unidecode(initial)[:1].upper()
+                if initial.isalpha() and title and title in encoding.stringletters():
                     pass
                 elif title == '_':
                      title = '_ (Underscore)'
-- 
2.43.0


From 0ea2acc6055b8a968ee36921ba34349a8fd0b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 054/119] fix: use the Unicode collation algorithm in the index

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 918c45a..69c0acc 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -14,7 +14,7 @@ from typing import Optional
 log = getLogger()
 
 try:
-    from pyuca import Collator_10_0_0
+    from pyuca.collator import Collator_10_0_0
     collator = Collator_10_0_0().sort_key
 except ImportError:
     collator = lambda x: x.lower()
-- 
2.43.0


From b24f2074005bd97f41b3b564e76af2929914eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 055/119] fix: items of enumerations are counted per nested
 enumeration, items with their own term are not

---
 plasTeX/Base/LaTeX/Bibliography.py |  1 +
 plasTeX/Base/LaTeX/Lists.py        | 54 ++++++++++++++++++++----------
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index 374c10f..afc2259 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -35,6 +35,7 @@ class bibliographystyle(Command):
     args = 'style'
 
 class thebibliography(List):
+    counters = [] # type: ignore
     args = 'widelabel'
     linkType = 'bibliography'
 
diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..1c8b058 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -13,7 +13,7 @@ class enumivname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
+    # Counters for the items at each nesting level of numbered lists
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
 
@@ -25,13 +25,25 @@ class List(Environment):
 
         def invoke(self, tex):
             """ Set up counter for this list depth """
+            self.counter = List.currentCounter(self.ownerDocument.context)
             try:
-                self.counter = List.counters[List.depth-1]
                 self.position = self.ownerDocument.context.counters[self.counter].value + 1
-            except (KeyError, IndexError):
+            except KeyError:
                 pass
             return Command.invoke(self, tex)
 
+        def preArgument(self, arg, tex):
+            """ Whether the item is counted depends on its term """
+            if 'term' not in [x.name for x in self.arguments]:
+                Command.preArgument(self, arg, tex)
+
+        def postArgument(self, arg, value, tex):
+            """ Items with a term of their own are not counted """
+            if arg.name == 'term':
+                if value is not None:
+                    self.counter = ''
+                self.refstepcounter(tex)
+
         def digest(self, tokens):
             """
             Items should absorb all of the content within that 
@@ -49,17 +61,24 @@ class List(Environment):
                 self.paragraphs()
 
     def invoke(self, tex):
-        """ Set list nesting depth """
-        if self.macroMode != Environment.MODE_END:
-            List.depth += 1
-        else:
-            List.depth -= 1
-        try:
-            for i in range(List.depth, len(List.counters)):
-                self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
-        except (IndexError, KeyError):
-            pass
-        return Environment.invoke(self, tex)
+        """ Restart the numbers of the items """
+        res = Environment.invoke(self, tex)
+        if self.macroMode != Environment.MODE_END and self.counters:
+            context = self.ownerDocument.context
+            try:
+                context.counters[List.currentCounter(context)].setcounter(0)
+            except KeyError:
+                pass
+        return res
+
+    @staticmethod
+    def currentCounter(context):
+        """ Return the name of the counter for the items of the innermost list """
+        lists = [x.obj for x in context.contexts if isinstance(x.obj, List)]
+        if lists and not lists[-1].counters:
+            return ''
+        depth = len([x for x in lists if x.counters])
+        return List.counters[depth-1] if 0 < depth <= len(List.counters) else ''
 
     def digest(self, tokens):
         if self.macroMode != Environment.MODE_END:
@@ -84,7 +103,7 @@ class List(Environment):
 # C.6.2
     
 class itemize(List): 
-    pass
+    counters = []
 
 class labelitemi(Command):
     pass
@@ -100,14 +119,15 @@ class enumerate_(List):
     args = '[ type ]'  # Actually defined in the enumerate package, but it doesn't hurt
 
 class description(List): 
-    pass
+    counters = []
 
 # C.6.3
 
 class trivlist(List): 
-    pass
+    counters = []
 
 class ConfigurableList(List):
+    counters = []
     macroName = 'list'
     args = 'defaultlabel decls:nox'
 
-- 
2.43.0


From b24040cb94cc36689993b5142cf109e08da834bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 056/119] fix: \newcounter{...}[within]

---
 plasTeX/Base/LaTeX/Numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 2de5263..5ee639e 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -7,7 +7,7 @@ from plasTeX import Command
 
 
 class newcounter(Command):
-    args = 'name:str [ within ]'
+    args = 'name:str [ within:str ]'
     def invoke(self, tex):
         a = self.parse(tex)
         self.ownerDocument.context.newcounter(a['name'], a['within'])
-- 
2.43.0


From d861d8c8e3560bf4044a113fe03b845f18ac6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 057/119] fix: setting a counter doesn't reset the counters
 within it

---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 1 +
 plasTeX/__init__.py         | 2 --
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..83a85c5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -19,4 +19,5 @@ class appendix(Command): # type: ignore
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.counters['subsection'].setcounter(0)
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index b78b1a5..8daf727 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -70,4 +70,5 @@ class appendix(Command):
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
+        self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context['thechapter'] = type(self).thechapter
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index c5aef07..855fb2a 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1650,11 +1650,9 @@ class Counter(object):
 
     def addtocounter(self, other):
         self.value += int(other)
-        self.resetcounters()
 
     def setcounter(self, other):
         self.value = int(other)
-        self.resetcounters()
 
     def stepcounter(self):
         self.value += 1
-- 
2.43.0


From fff3a0e9bdb4f9921f1e6455672de5f14a5c9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 058/119] fix: equations before the first chapter of a book
 have no chapter number

---
 plasTeX/Packages/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 8daf727..7d5a0c4 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -27,7 +27,7 @@ def ProcessOptions(options, document):
                        format='${thesubparagraph}.${subsubparagraph}')
 
     context.newcounter('equation', resetby='chapter',
-                       format='${thechapter}.${equation}')
+                       format='${thechapter}.${equation}', trimLeft=True)
 
     context.newcounter('secnumdepth')
     context.newcounter('tocdepth')
-- 
2.43.0


From 8ebdd104aa070194dd29b5011316d84d011d3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 059/119] fix: the row after \\* in an eqnarray is numbered

---
 plasTeX/Base/LaTeX/Math.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..b7c41cb 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -170,6 +170,12 @@ class eqnarray(EqnarrayStar):
     class EndRow(Array.EndRow):
         """ End of a row """
         counter: Optional[str] = 'equation'
+
+        def postArgument(self, arg, value, tex):
+            # The star doesn't mean that the next row has no number
+            if arg.name == '*modifier*':
+                self.refstepcounter(tex)
+
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
-- 
2.43.0


From 3c058582673104117d232009b8e9ebc927a29f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 060/119] fix: \nonumber takes back one number of a numbered
 row

---
 plasTeX/Base/LaTeX/Math.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index b7c41cb..17c8fb5 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -191,7 +191,15 @@ class eqnarray(EqnarrayStar):
 class nonumber(Command):
 
     def invoke(self, tex):
-        self.ownerDocument.context.counters['equation'].addtocounter(-1)
+        context = self.ownerDocument.context
+        # Take back the number of the current row, if it has one
+        arrays = [x.obj for x in context.contexts if isinstance(x.obj, Array)]
+        row = context.currentlabel
+        if arrays and not arrays[-1].counter or getattr(row, 'numberTaken', False):
+            return
+        if row is not None:
+            row.numberTaken = True
+        context.counters['equation'].addtocounter(-1)
 
     def digest(self, tokens):
         try:
-- 
2.43.0


From 7a7b86baaa68762bf62e7a6593f4254ddee9a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 061/119] fix: counter names with other characters than letters

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 855fb2a..2e7ff91 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1721,7 +1721,7 @@ class TheCounter(Command):
         if self.format is None:
             format = '${%s.arabic}' % self.nodeName[3:]
 
-        t = re.sub(r'\$\{\s*(\w+)(?:\.(\w+))?\s*\}', counterValue, format)
+        t = re.sub(r'\$\{\s*([^{}.]+?)(?:\.(\w+))?\s*\}', counterValue, format)
 
         # If trimLeft is set to True, we remove any "0." at the beginning.
         # Document classes such as book and report which do this in the
-- 
2.43.0


From d78c54986e609d9cadafefe2489d19f695c72418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 062/119] fix: sections deeper than the numbering depth don't
 step their counter

---
 plasTeX/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 2e7ff91..c79e495 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -546,7 +546,7 @@ class Macro(Element):
         tex -- the TeX instance containing the current context
 
         """
-        if self.counter:
+        if self.counter and self.isNumbered:
             try:
                 self.ownerDocument.context.counters[self.counter].stepcounter()
             except KeyError:
@@ -576,12 +576,16 @@ class Macro(Element):
         tex -- the TeX instance containing the current context
 
         """
-        if self.counter:
-            try: secnumdepth = self.config['document']['sec-num-depth']
-            except: secnumdepth = 10
-            if secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL:
-                self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
-                self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
+        if self.counter and self.isNumbered:
+            self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
+            self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
+
+    @property
+    def isNumbered(self):
+        """ Is this object within the numbering depth of the document? """
+        try: secnumdepth = self.config['document']['sec-num-depth']
+        except: secnumdepth = 10
+        return secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL
 
     @property
     def arguments(self):
-- 
2.43.0


From 132ee20bdfa34e9bb1c4597cddf1e31b653500e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 063/119] fix: rows of cases, split and multline have no number
 of their own

---
 plasTeX/Packages/amsmath.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..9f4f99d 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -37,7 +37,9 @@ class FAlignStar(_AMSEquationStar):
     macroName = 'falign*'
 
 class multiline(_AMSEquation):
-    pass
+    # The rows have one number together
+    class EndRow(_AMSEquationStar.EndRow):
+        pass
 
 class MultilineStar(_AMSEquationStar):
     macroName = 'multiline*'
@@ -52,10 +54,8 @@ class AlignatStar(_AMSEquationStar):
 class split(_AMSEquation):
     counter = None
 
-    class EndRow(_AMSEquation.EndRow):
-        counter = None
-
-    pass
+    class EndRow(_AMSEquationStar.EndRow):
+        pass
 
 #### Added by Tim ####
 class EquationStar(_AMSEquationStar):
@@ -68,7 +68,10 @@ class gathered(MathEnvironmentPre):
     pass
 
 class cases(_AMSEquation):
-    pass
+    counter = None
+
+    class EndRow(_AMSEquationStar.EndRow):
+        pass
 
 class flalign(_AMSEquation):
     pass
-- 
2.43.0


From d3ae891d0362be1062522d138a89149d9dcfa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 064/119] fix: numbers follow changes of the number they are
 within by \numberwithin

---
 plasTeX/Packages/amsmath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 9f4f99d..35beefe 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -1,4 +1,4 @@
-from plasTeX import Command
+from plasTeX import Command, TheCounter
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
@@ -140,8 +140,8 @@ class numberwithin(Command):
         target_cnt.resetby = control
 
         # Formatting
-        ctx['the'+target].format = '{}.${{{}}}'.format(
-                ctx['the'+control].format, target)
+        ctx.addGlobal('the'+target, type('the'+target, (TheCounter,),
+                {'format': '${the%s}.${%s}' % (control, target)}))
 
 class eqref(Command):
     args = 'label:idref'
-- 
2.43.0


From 66be05493cf3ec24fbd074de504e81b6bfd77144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 065/119] fix: amsthm theorems within counters whose name has
 other characters than letters

---
 plasTeX/Packages/amsthm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/amsthm.py b/plasTeX/Packages/amsthm.py
index 96a53be..2b7e728 100755
--- a/plasTeX/Packages/amsthm.py
+++ b/plasTeX/Packages/amsthm.py
@@ -179,9 +179,8 @@ class newtheorem(Command):
             counter = None
         else:
             if parent and not shared:
-                self.ownerDocument.context.newcounter(name, initial=0, resetby=parent)
-                self.ownerDocument.context.newcommand("the"+name, 0,
-                                                      r"\the%s.\arabic{%s}"%(parent, name))
+                self.ownerDocument.context.newcounter(name, initial=0, resetby=parent,
+                                                      format='${the%s}.${%s}' % (parent, name))
                 counter = name
             elif shared:
                 counter = shared
-- 
2.43.0


From 824e57f3496c6d41be357772eb1b3cb740ba2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 066/119] fix: the current label is local to groups

---
 plasTeX/Base/LaTeX/Lists.py |  6 +++---
 plasTeX/Base/LaTeX/Math.py  |  4 +++-
 plasTeX/Context.py          | 15 ++++++++++++---
 plasTeX/__init__.py         |  3 +++
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 1c8b058..a813f1f 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -41,7 +41,7 @@ class List(Environment):
             """ Items with a term of their own are not counted """
             if arg.name == 'term':
                 if value is not None:
-                    self.counter = ''
+                    self.counter = None
                 self.refstepcounter(tex)
 
         def digest(self, tokens):
@@ -76,9 +76,9 @@ class List(Environment):
         """ Return the name of the counter for the items of the innermost list """
         lists = [x.obj for x in context.contexts if isinstance(x.obj, List)]
         if lists and not lists[-1].counters:
-            return ''
+            return None
         depth = len([x for x in lists if x.counters])
-        return List.counters[depth-1] if 0 < depth <= len(List.counters) else ''
+        return List.counters[depth-1] if 0 < depth <= len(List.counters) else None
 
     def digest(self, tokens):
         if self.macroMode != Environment.MODE_END:
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 17c8fb5..35715de 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -179,7 +179,9 @@ class eqnarray(EqnarrayStar):
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
-            self.ownerDocument.context.currentlabel = res[1]
+            # All cells of the row
+            for item in self.ownerDocument.context.contexts[-2:]:
+                item.currentlabel = res[1]
             return res
 
     def invoke(self, tex):
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 66ccb74..038d946 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -40,6 +40,8 @@ class ContextItem(dict):
         self.obj = None
         self.parent = None
         self.owner = None
+        # Object that the current label points to
+        self.currentlabel = None
 
     @property
     def name(self):
@@ -170,9 +172,6 @@ class Context(object):
         # Stack of ContextItems
         self.contexts = []
 
-        # Object that the current label points to
-        self.currentlabel = None
-
         # Labeled objects
         self.labels = {}
         self.persistentLabels = {}
@@ -700,6 +699,15 @@ class Context(object):
 
         self.depth = len(self.contexts)
 
+    @property
+    def currentlabel(self):
+        """ Object that the current label points to (local to groups) """
+        return self.contexts[-1].currentlabel if self.contexts else None
+
+    @currentlabel.setter
+    def currentlabel(self, value):
+        self.contexts[-1].currentlabel = value
+
     def createContext(self, obj=None):
         """
         Create the pieces of a new context (i.e. macros and category codes)
@@ -716,6 +724,7 @@ class Context(object):
         newcontext = ContextItem()
         newcontext.categories = self.categories
         newcontext.obj = obj
+        newcontext.currentlabel = self.currentlabel
 
         if obj is not None:
 
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index c79e495..eb36435 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -372,6 +372,9 @@ class Macro(Element):
         self.ownerDocument.context.push(self)
         self.parse(tex)
         self.ownerDocument.context.pop(self)
+        # What follows the command is still labeled by it
+        if self.counter is not None:
+            self.ownerDocument.context.currentlabel = self
         self.setLinkType()
 
     def setLinkType(self, key=None):
-- 
2.43.0


From 93ff48c30f1ad9987fde046e5c9dcde8afd0c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 067/119] fix: labels and references in formulas are text

---
 plasTeX/Base/LaTeX/Crossref.py | 4 ++++
 plasTeX/Packages/amsmath.py    | 1 +
 plasTeX/Packages/hyperref.py   | 1 +
 plasTeX/Packages/memoir.py     | 1 +
 plasTeX/Packages/nameref.py    | 4 +++-
 5 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Crossref.py b/plasTeX/Base/LaTeX/Crossref.py
index 0db1ca5..a171287 100644
--- a/plasTeX/Base/LaTeX/Crossref.py
+++ b/plasTeX/Base/LaTeX/Crossref.py
@@ -8,9 +8,13 @@ from plasTeX import Command
 
 class label(Command):
     args = 'label:id'
+    # Labels in formulas are text
+    mathMode = False
 
 class ref(Command):
     args = 'label:idref'
+    mathMode = False
 
 class pageref(Command):
     args = 'label:idref'
+    mathMode = False
diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 35beefe..63f7a76 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -145,3 +145,4 @@ class numberwithin(Command):
 
 class eqref(Command):
     args = 'label:idref'
+    mathMode = False
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 46b276e..9aab881 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -104,6 +104,7 @@ class phantomsection(Command):
 
 class autoref(Command):
     args = 'label:idref'
+    mathMode = False
 
 class pdfstringdef(Command):
     args = 'macroname:str tex:str'
diff --git a/plasTeX/Packages/memoir.py b/plasTeX/Packages/memoir.py
index a3c96f5..ef994fb 100644
--- a/plasTeX/Packages/memoir.py
+++ b/plasTeX/Packages/memoir.py
@@ -5,6 +5,7 @@ class setlrmarginsandblock(Command): pass
 
 class titleref(Command):
     args = 'label:idref'
+    mathMode = False
 
 class tightlist(Command):
     def invoke(self, tex):
diff --git a/plasTeX/Packages/nameref.py b/plasTeX/Packages/nameref.py
index 1af53a8..12b5c91 100644
--- a/plasTeX/Packages/nameref.py
+++ b/plasTeX/Packages/nameref.py
@@ -7,6 +7,8 @@ from plasTeX import Command
 
 class nameref(Command):
     args = 'label:idref'
+    mathMode = False
     
 class Nameref(Command):
-    args = 'label:idref'
\ No newline at end of file
+    args = 'label:idref'
+    mathMode = False
-- 
2.43.0


From b289abbffdae9723939ee1bfbd1b00835db180e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 068/119] fix: table borders next to spans, @ at the start of
 columns, line breaks in boxes within cells

---
 plasTeX/Base/LaTeX/Arrays.py | 33 ++++++++++++++++++++++-----------
 plasTeX/Base/LaTeX/Math.py   |  2 ++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea80bed..79a7568 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -6,6 +6,7 @@ C.10.2 The array and tabular Environments
 import sys
 from plasTeX import Macro, Environment, Command, DimenCommand
 from plasTeX import sourceChildren, sourceArguments
+from plasTeX.Base.LaTeX.Breaking import NewLine
 from typing import Optional
 
 class ColumnType(Macro):
@@ -94,6 +95,15 @@ class Array(Environment):
         args = '* [ space ]' # type: str
 
         def invoke(self, tex):
+            # In boxes and groups within a cell, this is a line break
+            groups = [x.obj for x in self.ownerDocument.context.contexts
+                      if not isinstance(x.obj, Environment)
+                      or x.obj.macroMode != Macro.MODE_NONE]
+            if groups[-1] is not None:
+                obj = NewLine()
+                obj.ownerDocument = self.ownerDocument
+                obj.parse(tex)
+                return [obj]
             # Pop and push a new context for each row, this keeps
             # any formatting changes from the previous row from
             # leaking over into the next row
@@ -147,12 +157,10 @@ class Array(Environment):
                 location = self.locations[self.position]
             colnum = 1
             for cell in cells:
-                if colnum < start or colnum > end:
-                    colnum += 1
-                    continue
-                cell.style['border-%s-style' % location] = 'solid'
-                cell.style['border-%s-color' % location] = 'black'
-                cell.style['border-%s-width' % location] = '1px'
+                if start <= colnum <= end:
+                    cell.style['border-%s-style' % location] = 'solid'
+                    cell.style['border-%s-color' % location] = 'black'
+                    cell.style['border-%s-width' % location] = '1px'
                 if cell.attributes:
                     colnum += cell.attributes.get('colspan', 1)
                 else:
@@ -471,7 +479,6 @@ class Array(Environment):
         Apply borders from \\(h|c|v)line and colspecs
 
         """
-        lastrow = len(self) - 1
         emptyrows = []
         prev = None
         for i, row in enumerate(self):
@@ -480,10 +487,13 @@ class Array(Environment):
             # If the row is only here to apply borders, apply the
             # borders to the adjacent row.  Empty rows are deleted later.
             if row.isBorderOnly:
-                if i == 0 and lastrow:
-                    row.applyBorders(self[1], 'top')
-                elif prev is not None:
+                if prev is not None:
                     row.applyBorders(prev, 'bottom')
+                else:
+                    for other in self[i+1:]:
+                        if isinstance(other, Array.ArrayRow) and not other.isBorderOnly:
+                            row.applyBorders(other, 'top')
+                            break
                 emptyrows.insert(0, i)
             else:
                 row.applyBorders()
@@ -548,8 +558,9 @@ class Array(Environment):
                 continue
 
             if tok == '@':
+                between = tex.readArgument()
                 if output:
-                    output[-1].between = tex.readArgument()
+                    output[-1].between = between
                 continue
 
             if tok == '*':
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 35715de..ca7ff0b 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -178,6 +178,8 @@ class eqnarray(EqnarrayStar):
 
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
+            if res[0] is not self:
+                return res
             res[1].ref = self.ref
             # All cells of the row
             for item in self.ownerDocument.context.contexts[-2:]:
-- 
2.43.0


From fa60e1620f4dc3960bb42b9608a90567bfe1b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 069/119] fix: tabularnewline ends the rows of longtables

---
 plasTeX/Packages/longtable.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/plasTeX/Packages/longtable.py b/plasTeX/Packages/longtable.py
index d335c16..a1fba3f 100644
--- a/plasTeX/Packages/longtable.py
+++ b/plasTeX/Packages/longtable.py
@@ -34,8 +34,6 @@ class longtable(tabular):
         """ Caption that doesn't increment the counter """
         counter = None
 
-    class tabularnewline(Command): pass
-
     class LongTableEndRow(tabular.EndRow):
         args = ''
         macroName = None
-- 
2.43.0


From e0d6aebbe5efbefbbd7eb9f0132040349421e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 070/119] fix: line breaks in groups within cells don't end
 rows

---
 plasTeX/Base/LaTeX/Arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 79a7568..cc964b3 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -98,8 +98,9 @@ class Array(Environment):
             # In boxes and groups within a cell, this is a line break
             groups = [x.obj for x in self.ownerDocument.context.contexts
                       if not isinstance(x.obj, Environment)
+                      or isinstance(x.obj, Array)
                       or x.obj.macroMode != Macro.MODE_NONE]
-            if groups[-1] is not None:
+            if groups[-1] is not None or not isinstance(groups[-2:][0], Array):
                 obj = NewLine()
                 obj.ownerDocument = self.ownerDocument
                 obj.parse(tex)
-- 
2.43.0


From 743b8d5a1b0de8f0da87f11a990f1241cda36269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 071/119] fix: the delimiter of verb is not tokenized before
 verbatim mode

---
 plasTeX/Base/LaTeX/Verbatim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Verbatim.py b/plasTeX/Base/LaTeX/Verbatim.py
index d842d60..15c7129 100644
--- a/plasTeX/Base/LaTeX/Verbatim.py
+++ b/plasTeX/Base/LaTeX/Verbatim.py
@@ -29,12 +29,13 @@ class verb(Command):
     def invoke(self, tex):
         """ Parse for matching delimiters """
         self.ownerDocument.context.push(self)
-        self.parse(tex)
+        # Looking for the star must not tokenize the delimiter
         self.ownerDocument.context.setVerbatimCatcodes()
+        self.parse(tex)
         # See what the delimiter is
         for endpattern in tex:
             self.delimiter = endpattern
-            if isinstance(endpattern, bgroup):
+            if isinstance(endpattern, bgroup) or endpattern == '{':
                 self.delimiter = endpattern = Other('}')
             break
         tokens = [self, endpattern]
-- 
2.43.0


From e862b642ecb2157dd41171f4429ae44501f07a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 072/119] fix: endverbatim in the text doesn't end a verbatim
 environment

---
 plasTeX/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index eb36435..8025c07 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1036,7 +1036,8 @@ class VerbatimEnvironment(NoCharSubEnvironment):
                         res = [end]
                     tex.pushTokens(res)
                     break
-            if len(tokens) >= endlength2:
+            if self.macroMode == Environment.MODE_NONE and \
+               len(tokens) >= endlength2:
                 if tokens[-endlength2:] == endpattern2:
                     tokens = tokens[:-endlength2]
                     self.ownerDocument.context.pop(self)
-- 
2.43.0


From a7ea468c67fdf9a8d9a0559a52c6331fb9ed4793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 073/119] fix: formulas in text boxes in formulas

---
 plasTeX/Base/LaTeX/Boxes.py     | 8 ++++----
 plasTeX/Base/LaTeX/Math.py      | 3 ++-
 plasTeX/Base/LaTeX/Sentences.py | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Boxes.py b/plasTeX/Base/LaTeX/Boxes.py
index 0cc87ac..fcef922 100644
--- a/plasTeX/Base/LaTeX/Boxes.py
+++ b/plasTeX/Base/LaTeX/Boxes.py
@@ -8,7 +8,7 @@ from plasTeX import Command, Environment
 from plasTeX import DimenCommand, GlueCommand
 
 
-class TextBoxCommand(Command):
+class TextBoxCommand(BoxCommand):
 
     class width(DimenCommand):
         value = DimenCommand.new(0)
@@ -29,7 +29,7 @@ class mbox(BoxCommand):
 class makebox(TextBoxCommand):
     args = '[ width:dimen ] [ pos:str ] self'
 
-class fbox(Command):
+class fbox(BoxCommand):
     args = 'self'
 
 class framebox(TextBoxCommand):
@@ -38,7 +38,7 @@ class framebox(TextBoxCommand):
 class newsavebox(Command):
     args = 'name:cs'
 
-class sbox(Command):
+class sbox(BoxCommand):
     args = 'name:cs text'
 
 class savebox(TextBoxCommand):
@@ -50,7 +50,7 @@ class lrbox(Environment):
 class usebox(Command):
     args = 'name:cs'
 
-class parbox(Command):
+class parbox(BoxCommand):
     args = '[ pos:str ] width:dimen self'
 
 class minipage(Environment):
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index ca7ff0b..57a68f8 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -4,6 +4,7 @@ C.7 Mathematical Formulas (p187)
 """
 
 from plasTeX.Base.LaTeX.Arrays import Array
+from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment, sourceChildren, NoCharSubEnvironment
 from plasTeX import DimenCommand, GlueCommand, TeXFragment
 from typing import Optional
@@ -708,7 +709,7 @@ class boldmath(Command):
 class unboldmath(Command):
     pass
 
-class text(Command):
+class text(BoxCommand):
     args = 'self'
 
 # Math Style
diff --git a/plasTeX/Base/LaTeX/Sentences.py b/plasTeX/Base/LaTeX/Sentences.py
index eefbc59..2237f60 100644
--- a/plasTeX/Base/LaTeX/Sentences.py
+++ b/plasTeX/Base/LaTeX/Sentences.py
@@ -3,6 +3,7 @@ C.3.1 Making Sentences (p170)
 
 """
 
+from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment
 
 
@@ -86,7 +87,7 @@ class TeX(Command):
 # Misc
 #
 
-class emph(Command):
+class emph(BoxCommand):
     args = 'self'
 
 class em(Environment):
-- 
2.43.0


From 13f5436b1e05159e4e44f467ac74dc3137efd5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 074/119] fix: character substitutions in groups and arguments
 in formulas, rules and empty rows in the source of arrays

---
 plasTeX/Base/LaTeX/Arrays.py | 16 +++++++++++++---
 plasTeX/TeX.py               |  6 +++---
 plasTeX/__init__.py          | 17 ++++++++++++++++-
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index cc964b3..675fe34 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -7,7 +7,7 @@ import sys
 from plasTeX import Macro, Environment, Command, DimenCommand
 from plasTeX import sourceChildren, sourceArguments
 from plasTeX.Base.LaTeX.Breaking import NewLine
-from typing import Optional
+from typing import Any, List, Optional
 
 class ColumnType(Macro):
 
@@ -65,6 +65,8 @@ class Array(Environment):
     colspec = None
     blockType = True
     captionable = True
+    # Empty rows that were removed at the end
+    skippedRows = [] # type: List[Any]
 
     class caption(Command):
         """ Table caption """
@@ -213,6 +215,8 @@ class Array(Environment):
     class ArrayRow(Macro):
         """ Table row class """
         endToken = None
+        # Empty rows that were removed before this row
+        skippedRows = [] # type: List[Any]
 
         def digest(self, tokens):
             # Absorb tokens until the end of the row
@@ -512,9 +516,11 @@ class Array(Environment):
                         cell.style.update(spec.style)
                 prev = row
 
-        # Pop empty rows
+        # Pop empty rows, but keep them for the source
         for i in emptyrows:
-            self.pop(i)
+            row = self.pop(i)
+            following = self if i == len(self) else self[i]
+            following.skippedRows = [row] + following.skippedRows
 
     @classmethod
     def compileColspec(cls, tex, colspec):
@@ -607,7 +613,11 @@ class Array(Environment):
                 argSource = ' '
             s.append('%sbegin{%s}%s' % (escape, name, argSource))
             if self.hasChildNodes():
+                rows = []
                 for row in self:
+                    rows += row.skippedRows
+                    rows.append(row)
+                for row in rows + self.skippedRows:
                     for cell in row:
                         s.append(sourceChildren(cell, par=not(self.mathMode)))
                         if cell.endToken is not None:
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 3a7f4e5..a589bdb 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -547,7 +547,7 @@ class TeX(object):
                     return tokens.pop()
                 t = self.ownerDocument.createDocumentFragment()
                 t.extend(tokens)
-                t.normalize(getattr(self.ownerDocument, 'charsubs', []))
+                t.normalize(self.ownerDocument.currentCharsubs())
                 return t
             if t.catcode not in textTokens:
                 if len(tokens) == 1:
@@ -556,7 +556,7 @@ class TeX(object):
                 t.ownerDocument = self.ownerDocument
                 t.parentNode = None
                 t.extend(tokens)
-                t.normalize(getattr(self.ownerDocument, 'charsubs', []))
+                t.normalize(self.ownerDocument.currentCharsubs())
                 return t
 
         return (''.join([x for x in tokens
@@ -700,7 +700,7 @@ class TeX(object):
             self.readOptionalSpaces()
 
         if charsubs is None:
-            charsubs = getattr(self.ownerDocument, 'charsubs', [])
+            charsubs = self.ownerDocument.currentCharsubs()
 
         if type in ['Dimen','Length','Dimension']:
             n = self.readDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 8025c07..b32ff3c 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -754,7 +754,7 @@ class Macro(Element):
 
         # No paragraphs, and we aren't forcing paragraphs...
         if parname is None and not force:
-            self.normalize(self.ownerDocument.charsubs)
+            self.normalize(self.ownerDocument.currentCharsubs(self))
             return
 
         if parname is None:
@@ -864,6 +864,21 @@ class TeXDocument(Document):
             cur.append(cbs)
 
 
+    def currentCharsubs(self, node=None):
+        """
+        The character substitutions to apply at this point of the input
+
+        Keyword Arguments:
+        node -- the node that contains the text
+
+        """
+        while node is not None:
+            mathMode = getattr(node, 'mathMode', None)
+            if mathMode is not None:
+                return [] if mathMode else self.charsubs
+            node = node.parentNode
+        return [] if self.context.isMathMode else self.charsubs
+
     def createElement(self, name):
         elem = self.context[name]()
         elem.parentNode = None
-- 
2.43.0


From 030d5305f0d008c218423ee954c4c6a280c13602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 075/119] fix: ampersands in formulas that look like entities
 in HTML

---
 plasTeX/Base/LaTeX/Math.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 57a68f8..22bb7c5 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -3,6 +3,7 @@ C.7 Mathematical Formulas (p187)
 
 """
 
+import re
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment, sourceChildren, NoCharSubEnvironment
@@ -56,6 +57,8 @@ class MathEnvironmentPre(MathEnvironment):
 
 def mathjax_lt_gt(s: str) -> str:
     """Help mathjax deal with < and >, see http://docs.mathjax.org/en/latest/input/tex/html.html?highlight=lt#html-special-characters."""
+    # An ampersand in front of a letter may look like an entity
+    s = re.sub(r'&(?=[#A-Za-z])', '& ', s)
     return s.replace('<', r'\lt ').replace('>', r'\gt ')
 
 class math(MathEnvironment):
-- 
2.43.0


From c012e4c73881ce65ed3632aa1b9d57e8d19a96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 076/119] fix: character substitutions in documents without
 paragraphs at the top level

---
 plasTeX/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index b32ff3c..e0a6808 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -974,6 +974,8 @@ class Environment(Macro):
 #       print 'DONE', type(self)
         if dopars:
             self.paragraphs()
+        elif self.level == Node.DOCUMENT_LEVEL:
+            self.normalize(self.ownerDocument.charsubs)
 
 class NoCharSubEnvironment(Environment):
     """
-- 
2.43.0


From 102af4ff7b70e8ad6fdb37ad5db7c0bbaa7ca58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 077/119] fix: booleans like 'no' in configuration files

---
 plasTeX/ConfigManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..d3717bf 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -55,6 +55,12 @@ class BooleanOption(ConfigOption[bool]):
         if disables:
             group.add_argument(*disables, dest=self.name, help=self.description + formatDefault(self.value), action='store_false', default=None)
 
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: {}".format(string)) from None
+
 class MultiStringOption(ConfigOption[List[str]]):
     def registerArgparse(self, group: ArgumentGroup):
         group.add_argument(*self.options, dest=self.name, type=str, nargs="*", help=self.description, action="append")
-- 
2.43.0


From c4c0c13742cab2e31cc7f861043b72a741ee59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 078/119] fix: case of the keys of dictionary options in
 configuration files

---
 plasTeX/ConfigManager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index d3717bf..3224ca8 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,8 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # Keys of dictionaries are case-sensitive
+            data.optionxform = str # type: ignore
             data.read(filename)
 
             for section in data.sections():
@@ -292,6 +294,8 @@ class ConfigManager(Dict[str, ConfigSection]):
                 for key, val in data.items(section):
                     if key in self[section].data:
                         self[section].data[key].setFromString(val)
+                    elif key.lower() in self[section].data:
+                        self[section].data[key.lower()].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 2d275f94fffd0375569c39649baa06fbc2bcdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 079/119] fix: loading a language changed the lang-terms option

---
 plasTeX/Context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 038d946..8d72c2a 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -313,7 +313,7 @@ class Context(object):
         """
 
         if not self.languages:
-            files = document.config['document']['lang-terms']
+            files = list(document.config['document']['lang-terms'])
             files.append(os.path.join(os.path.dirname(__file__), 'i18n.xml'))
 
             LanguageParser(self.languages).parse(reversed(files))
-- 
2.43.0


From 14872fd2918d05b39dcf72cada154e4de49e6853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 080/119] fix: names and defaults of options in the manual

---
 Doc/command.tex | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Doc/command.tex b/Doc/command.tex
index f179284..cac1716 100644
--- a/Doc/command.tex
+++ b/Doc/command.tex
@@ -128,7 +128,7 @@ a \class{Renderer} class.
 \end{configuration}
 
 \begin{configuration}{Packages directories}
-\options{\longprogramopt{packages-dir=\optval{directories}}}
+\options{\longprogramopt{packages-dirs=\optval{directories}}}
 \config{general}{packages-dirs}
 \default{[]}
 specifies a list of directories where python implementations
@@ -144,7 +144,7 @@ specifies which theme to use.
 
 \begin{configuration}{Extra theme files}
 \options{\longprogramopt{copy-theme-extras} or
-         \longprogramopt{ignore-theme-extras}}
+         \longprogramopt{no-theme-extras}}
 \config{general}{copy-theme-extras}
 \default{yes}
 indicates whether or not extra files that belong to a theme (if there are
@@ -196,7 +196,7 @@ specifies a list of files that contain language terms
 \begin{configuration}{Section number depth}
 \options{\longprogramopt{sec-num-depth=\optval{integer}}}
 \config{document}{sec-num-depth}
-\default{6}
+\default{2}
 specifies the section level depth that should appear in section numbers.
 This value overrides the value of the secnumdepth counter in the document.
 \end{configuration}
@@ -544,7 +544,6 @@ specifies a base URL to prepend to the path of all images.
 \begin{configuration}{\LaTeX\ program to use to compile image document}
 \options{\longprogramopt{image-compiler=\optval{program}}}
 \config{images}{compiler}
-\default{latex}
 specifies which program to use to compile the images \LaTeX\ document. If
 unspecified, the default is specified by the imager. Note that not all imagers
 are compatible with all compilers. Specifically, some imagers need compilers
@@ -554,7 +553,6 @@ that produces pdf's and others need dvi's.
 \begin{configuration}{\LaTeX\ program to use to compile vector image document}
 \options{\longprogramopt{vector-image-compiler=\optval{program}}}
 \config{images}{vector-compiler}
-\default{latex}
 specifies which program to use to compile the vector images \LaTeX\ document. If
 unspecified, this uses the value of \longprogramopt{image-compiler}.
 \end{configuration}
@@ -571,7 +569,7 @@ indicates whether or not images should be generated.
 \options{\longprogramopt{enable-image-cache} or
          \longprogramopt{disable-image-cache}}
 \config{images}{cache}
-\default{yes}
+\default{no}
 indicates whether or not images should use a cache between runs.
 \end{configuration}
 
@@ -591,7 +589,7 @@ You can use the value of ``none'' to turn the imager off.
 \begin{configuration}{Image filenames}
 \options{\longprogramopt{image-filenames=\optval{filename-template}}}
 \config{images}{filenames}
-\default{images/img-\$num(4).png}
+\default{images/img-\$num(4)}
 specifies the image naming template to use to generate filenames.  This
 template is the same as the templates used by the \longprogramopt{filename}
 option.
@@ -712,7 +710,7 @@ and proofs.
 
 \begin{configuration}{Extra javascript}
   \options{\longprogramopt{extra-js \optval{filename1 filename2 ...}}}
-\config{html5}{extra-css}
+\config{html5}{extra-js}
 \default{[]}
 specifies a list of javascript files to use (in addition
 to those coming from the theme is the use-theme-js option is set to true).
@@ -734,7 +732,7 @@ some filter is expected to handle mathematics (see
 \begin{configuration}{MathJax library url}
 \options{\longprogramopt{mathjax-url=\optval{url}}}
 \config{html5}{mathjax-url}
-\default{http://cdn.mathjax.org/mathjax/latest/MathJax.js?config=TeX-AMS_CHTML}
+\default{https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js}
 specifies where to find the MathJax javascript lib (including the config
 information as in the default value).
 \end{configuration}
-- 
2.43.0


From 1dc2c5f081fdd65b96cbb40c1d8514035688d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 081/119] fix: damaged auxiliary files gave wrong labels, saved
 labels that no longer exist, defined a macro when restoring labels

---
 plasTeX/Context.py | 66 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 8d72c2a..6a39fe1 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -84,6 +84,38 @@ class ContextItem(dict):
         return self.name
 
 
+# Separates cross-document information from its checksum
+AUX_CHECKSUM = b'\n# sha256 '
+
+def auxChecksum(content):
+    import hashlib
+    return hashlib.sha256(content).hexdigest().encode('ascii')
+
+def loadAux(filename):
+    """
+    Load the cross-document information saved by `Context.persist`
+
+    Returns: dictionary of dictionaries of attributes.  Its keys are names of
+        renderers, the keys of the nested dictionaries are labels.
+
+    Raises an exception if the file is damaged.
+
+    """
+    import pickle
+    with open(filename, 'rb') as fh:
+        content = fh.read()
+    data, mark, checksum = content.rpartition(AUX_CHECKSUM)
+    # Files of previous versions have no checksum
+    if mark and checksum != auxChecksum(data):
+        raise ValueError('%s is damaged' % filename)
+    d = pickle.loads(data if mark else content)
+    if not isinstance(d, dict) or \
+       not all(isinstance(labels, dict) and
+               all(isinstance(attrs, dict) for attrs in labels.values())
+               for labels in d.values()):
+        raise ValueError('%s does not contain labels' % filename)
+    return d
+
 class Counters(dict):
     def __getitem__(self, name):
         try:
@@ -239,23 +271,20 @@ class Context(object):
 
         """
         import pickle
+        d = {}
         if os.path.exists(filename):
             try:
-                with open(filename, 'rb') as fh:
-                    d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
-                os.remove(filename)
-                d = {rtype:{}}
-        else:
-            d = {rtype:{}}
-        data = d[rtype]
+                d = loadAux(filename)
+            except Exception:
+                pass
+        # Labels from previous runs that no longer exist are dropped
+        d[rtype] = data = {}
         for key, value in list(self.persistentLabels.items()):
             data[key] = value.persist()
         try:
+            content = pickle.dumps(d)
             with open(filename, 'wb') as fh:
-                pickle.dump(d, fh)
+                fh.write(content + AUX_CHECKSUM + auxChecksum(content))
         except Exception as msg:
             log.warning('Could not save auxiliary information. (%s)' % msg)
 
@@ -272,22 +301,27 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
         if not os.path.exists(filename):
             return
+        wou = self.warnOnUnrecognized
         try:
-            d = pickle.load(open(filename, 'rb'))
+            d = loadAux(filename)
             try: data = d[rtype]
             except KeyError: return
-            wou = self.warnOnUnrecognized
             self.warnOnUnrecognized = False
             for key, value in list(data.items()):
-                n = self[value.get('macroName', 'Macro')]()
+                name = value.get('macroName', 'Macro')
+                # Don't define the macro if there is none by that name
+                cls = self.top.get(name)
+                if cls is None:
+                    cls = type(name, (plasTeX.UnrecognizedMacro,), {})
+                n = cls()
                 n.restore(value)
                 self.labels[key] = n
-            self.warnOnUnrecognized = wou
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
+        finally:
+            self.warnOnUnrecognized = wou
 
     @property
     def isMathMode(self):
-- 
2.43.0


From ed63acf5e05e3e834de850184deb245f678e21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 082/119] fix: labels of another renderer, damaged auxiliary
 files in xr

---
 plasTeX/Packages/xr.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..02ca16f 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -1,7 +1,7 @@
-import pickle
 import os
 from typing import Dict
 from plasTeX import Command
+from plasTeX.Context import loadAux
 from plasTeX.Logging import getLogger
 
 log = getLogger()
@@ -11,7 +11,7 @@ def load_paux(name: str) -> Dict:
         log.warning('Could not find {}'.format(name))
         return dict()
     try:
-        data = pickle.load(open(name, 'rb'))
+        data = loadAux(name)
     except:
         log.warning('Failed to load {}'.format(name))
         return dict()
@@ -29,8 +29,10 @@ class externaldocument(Command):
         if url:
             url = url.textContent.rstrip('/') + '/'
         labels = self.ownerDocument.context.labels
-        for block in load_paux(pauxname).values():
-            for lbl, val in block.items():
-                labels[prefix + lbl] = val
-                if url:
-                    labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
+        # The locations of labels are those of the same renderer
+        rname = self.config['general']['renderer']
+        block = load_paux(pauxname).get(rname, {})
+        for lbl, val in block.items():
+            labels[prefix + lbl] = val
+            if url and 'url' in val:
+                labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
-- 
2.43.0


From 6ac24785c34abb94c10d64094cbfc9173c16ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 083/119] fix: damaged checksums of auxiliary files

---
 plasTeX/Context.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 6a39fe1..3596eda 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -101,14 +101,18 @@ def loadAux(filename):
     Raises an exception if the file is damaged.
 
     """
+    import io
     import pickle
     with open(filename, 'rb') as fh:
         content = fh.read()
     data, mark, checksum = content.rpartition(AUX_CHECKSUM)
-    # Files of previous versions have no checksum
     if mark and checksum != auxChecksum(data):
         raise ValueError('%s is damaged' % filename)
-    d = pickle.loads(data if mark else content)
+    # Files of previous versions have no checksum
+    fh = io.BytesIO(data if mark else content)
+    d = pickle.load(fh)
+    if fh.read(1):
+        raise ValueError('%s is damaged' % filename)
     if not isinstance(d, dict) or \
        not all(isinstance(labels, dict) and
                all(isinstance(attrs, dict) for attrs in labels.values())
-- 
2.43.0


From fe084976a45694b1df44f49e1f144f0123acafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 084/119] fix: labels of external documents in the text,
 DocBook and man page renderers

---
 plasTeX/Packages/xr.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 02ca16f..463b138 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -18,6 +18,14 @@ def load_paux(name: str) -> Dict:
     return data
 
 
+class ExternalLabel(dict):
+    """ Labeled object of another document; looks like a node to renderers """
+    def __getattr__(self, name):
+        if name in Command.refAttributes:
+            return self.get(name)
+        raise AttributeError(name)
+
+
 class externaldocument(Command):
     args = '[prefix:str] name:str [url:url]'
 
@@ -33,6 +41,6 @@ class externaldocument(Command):
         rname = self.config['general']['renderer']
         block = load_paux(pauxname).get(rname, {})
         for lbl, val in block.items():
-            labels[prefix + lbl] = val
+            labels[prefix + lbl] = val = ExternalLabel(val)
             if url and 'url' in val:
-                labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
+                val['url'] = url + val['url']
-- 
2.43.0


From 2b41c9405eb86de3a082d67ee97befc20d1c3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 085/119] fix: formulas and boxes left open in a document
 affect the documents processed after it

---
 plasTeX/Base/TeX/Primitives.py | 12 +++++++-----
 plasTeX/Context.py             |  3 +++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index fb1fd6e..17a0251 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -61,9 +61,12 @@ class BoxCommand(Command):
     args = 'self'
     mathMode = False
     def parse(self, tex):
-        MathShift.inEnv.append(None)
-        Command.parse(self, tex)
-        MathShift.inEnv.pop()
+        inEnv = self.ownerDocument.context.mathShifts
+        inEnv.append(None)
+        try:
+            Command.parse(self, tex)
+        finally:
+            inEnv.pop()
         return self.attributes
 
 class hbox(BoxCommand): pass
@@ -79,7 +82,6 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
@@ -88,7 +90,7 @@ class MathShift(Command):
         account \mbox{}es.
 
         """
-        inEnv = type(self).inEnv
+        inEnv = self.ownerDocument.context.mathShifts
 
         current = self.ownerDocument.createElement('math')
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 3596eda..0ae85c7 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -231,6 +231,9 @@ class Context(object):
         # Holds the current environment name stack
         self._currenvir = []
 
+        # Holds the formulas and boxes started by $ and \hbox
+        self.mathShifts = []
+
         # Holds the terms for various languages
         self.languages = {}
         self.terms = {}
-- 
2.43.0


From d1372484a5825012ee35ee7939bc88d472c662a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 086/119] fix: registers assigned in a document keep their
 values in the documents processed after it

---
 plasTeX/Context.py  | 27 ++++++++++++++++++++++++++-
 plasTeX/__init__.py | 43 ++++++++++++++++++++++++++++---------------
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 0ae85c7..03d08c5 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -225,6 +225,9 @@ class Context(object):
         # Output files
         self.writes = {}
 
+        # Classes of macros modified in this document only
+        self.localMacros = {}
+
         # Depth of the context stack
         self.depth = 0
 
@@ -787,10 +790,32 @@ class Context(object):
         """
         for value in list(context.values()):
             if ismacro(value):
-                self[macroName(value)] = value
+                self[macroName(value)] = self.localMacros.get(value, value)
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
+    def localMacro(self, cls):
+        """
+        Get a subclass of a macro class that is used in this document only
+
+        The classes of macros are shared by all documents.  Attributes that
+        change in one document have to be set in a class of that document.
+
+        Required Arguments:
+        cls -- the class of the macro
+
+        Returns: the class that replaces it in this document
+
+        """
+        if cls not in self.localMacros:
+            newcls = type(cls.__name__, (cls,), {'__module__': cls.__module__})
+            self.localMacros[cls] = self.localMacros[newcls] = newcls
+            for item in self.contexts:
+                for key, macro in list(item.items()):
+                    if macro is cls:
+                        item[key] = newcls
+        return self.localMacros[cls]
+
     def pop(self, obj=None):
         """
         Remove a context from the stack
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index e0a6808..dfc684a 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1519,13 +1519,26 @@ class ParameterCommand(Command):
     enabled = True
     _enablelevel = 0
 
+    def register(self):
+        """ Return the class holding the value of this parameter """
+        if self.ownerDocument is None:
+            return type(self)
+        return self.ownerDocument.context.localMacros.get(type(self), type(self))
+
+    def setvalue(self, value):
+        """ Set the value of this parameter in the current document """
+        if self.ownerDocument is None:
+            type(self).value = value
+        else:
+            self.ownerDocument.context.localMacro(type(self)).value = value
+
     def invoke(self, tex):
         if ParameterCommand.enabled:
             # Disable invoke() in parameters nested in our arguments.
             # We don't want them to invoke, we want them to set our value.
             ParameterCommand.enabled = False
             try:
-                type(self).value = self.parse(tex)['value']
+                self.setvalue(self.parse(tex)['value'])
             finally:
                 ParameterCommand.enabled = True
 
@@ -1540,22 +1553,22 @@ class ParameterCommand(Command):
         ParameterCommand.enabled = ParameterCommand._enablelevel >= 0
 
     def __dimen__(self):
-        return dimen(type(self).value)
+        return dimen(self.register().value)
 
     def __mudimen__(self):
-        return mudimen(type(self).value)
+        return mudimen(self.register().value)
 
     def __count__(self):
-        return count(type(self).value)
+        return count(self.register().value)
 
     def __glue__(self):
-        return glue(type(self).value)
+        return glue(self.register().value)
 
     def __muglue__(self):
-        return muglue(type(self).value)
+        return muglue(self.register().value)
 
     def the(self):
-        return type(self).value.source
+        return self.register().value.source
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1570,10 +1583,10 @@ class DimenCommand(RegisterCommand):
     value = dimen(0)
 
     def setlength(self, len):
-        type(self).value = dimen(len)
+        self.setvalue(dimen(len))
 
     def addtolength(self, len):
-        type(self).value = dimen(type(self).value + len)
+        self.setvalue(dimen(self.register().value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1584,10 +1597,10 @@ class MuDimenCommand(RegisterCommand):
     value = mudimen(0)
 
     def setlength(self, len):
-        type(self).value = mudimen(len)
+        self.setvalue(mudimen(len))
 
     def addtolength(self, len):
-        type(self).value = mudimen(type(self).value + len)
+        self.setvalue(mudimen(self.register().value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1598,10 +1611,10 @@ class GlueCommand(RegisterCommand):
     value = glue(0)
 
     def setlength(self, len):
-        type(self).value = glue(len)
+        self.setvalue(glue(len))
 
     def addtolength(self, len):
-        type(self).value = glue(type(self).value + len)
+        self.setvalue(glue(self.register().value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
@@ -1612,10 +1625,10 @@ class MuGlueCommand(RegisterCommand):
     value = muglue(0)
 
     def setlength(self, len):
-        type(self).value = muglue(len)
+        self.setvalue(muglue(len))
 
     def addtolength(self, len):
-        type(self).value = muglue(type(self).value + len)
+        self.setvalue(muglue(self.register().value + len))
 
     @classmethod
     def new(cls, *args, **kwargs):
-- 
2.43.0


From a84458b16260f30477804d7b3460930705320c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 087/119] fix: article and natbib change the level of
 bibliographies and indexes of the documents processed later

---
 plasTeX/Packages/article.py | 10 ++++------
 plasTeX/Packages/natbib.py  |  7 ++++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 83a85c5..f7e8cf1 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -5,12 +5,10 @@ from plasTeX.Packages import report
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    for name in ['theindex', 'printindex', 'bibliography']:
+        macro = document.context.localMacro(document.context[name])
+        macro.counter = 'section'
+        macro.level = Environment.SECTION_LEVEL
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..364aa0b 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -16,6 +16,11 @@ def ProcessOptions(options, document):
     """ Process package options """
     options = options or dict()
     new_options = dict()
+    # The document class determines the level of the bibliography
+    context = document.context
+    bib = context.localMacro(bibliography)
+    bib.counter = context['bibliography'].counter
+    bib.level = context['bibliography'].level
     punct = {'post': bstyleoption(', '),
              'open': bstyleoption('('),
              'close':bstyleoption(')'),
@@ -50,7 +55,7 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            bib.level = Base.section.level
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
-- 
2.43.0


From baaecac1d1b489d75c9fb0ed769e66e3d1b44399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 088/119] fix: beamer, hyperref and verse change the arguments
 of macros in documents that don't use them

---
 plasTeX/Context.py           |  3 +-
 plasTeX/Packages/beamer.py   | 71 ++++++++++++++++++++----------------
 plasTeX/Packages/cleveref.py |  2 +
 plasTeX/Packages/hyperref.py |  6 ++-
 plasTeX/Packages/verse.py    |  8 ++--
 5 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 03d08c5..1a9914f 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -776,7 +776,8 @@ class Context(object):
 #           if obj.categories is not None:
 #               newcontext.categories = obj.categories
 
-            newcontext.update(obj.locals())
+            for key, macro in obj.locals().items():
+                newcontext[key] = self.localMacros.get(macro, macro)
 
         return newcontext
 
diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..becc261 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -8,10 +8,49 @@ from plasTeX.Base import tableofcontents, thebibliography
 from plasTeX.Base import abstract, verse, quotation, quote, footnote, footnotetext
 from plasTeX.Packages.color import color
 from plasTeX.Packages.graphicx import includegraphics
+from plasTeX.Packages import hyperref
 from plasTeX.Packages.hyperref import hypertarget, hyperlink
 from plasTeX.Packages.article import appendix
 
+# Arguments of the macros that take other arguments in beamer documents
+ARGUMENTS = {
+    List.item: '< alert >' + List.item.args + '< alert2 >',
+    textbf: '< overlay >' + textbf.args,
+    textit: '< overlay >' + textit.args,
+    textsl: '< overlay >' + textsl.args,
+    textrm: '< overlay >' + textrm.args,
+    textsf: '< overlay >' + textsf.args,
+    color: '< overlay >' + color.args,
+    label: '< overlay >' + label.args,
+    includegraphics: '< overlay >' + includegraphics.args,
+    newcommand: '< overlay >' + newcommand.args,
+    renewcommand: '< overlay >' + renewcommand.args,
+    newenvironment: '< overlay >' + newenvironment.args,
+    renewenvironment: '< overlay >' + renewenvironment.args,
+    itemize: '[ overlay ]',
+    enumerate_: '[ overlay ] [ template ]',
+    description: '[ overlay ] [ longtext ]',
+    section: '< overlay >' + section.args,
+    subsection: '< overlay >' + subsection.args,
+    subsubsection: '< overlay >' + subsubsection.args,
+    part: '< overlay >' + part.args,
+    thebibliography.bibitem: '< overlay >' + thebibliography.bibitem.args,
+    appendix: '< overlay >' + appendix.args,
+    hypertarget: '< overlay >' + hypertarget.args,
+    hyperlink: '< overlay >' + hyperlink.args + '< overlay2 >',
+    tableofcontents: '[ options:dict ]' + tableofcontents.args,
+    abstract: '< overlay >' + abstract.args,
+    verse: '< overlay >' + verse.args,
+    quotation: '< overlay >' + quotation.args,
+    quote: '< overlay >' + quote.args,
+    footnote: '< overlay > [ options:dict ] self',  # modify options int -> dict
+    footnotetext: '< overlay > [ options:dict ] self',  # modify options int -> dict
+}
+
 def ProcessOptions(options, document):
+    hyperref.ProcessOptions({}, document)
+    for macro, args in ARGUMENTS.items():
+        document.context.localMacro(macro).args = args
     # We add to the imager preamble some code removing the background color
     # and navigation symbols that would otherwise prevent proper cropping.
     extras = document.userdata.get('imager_preamble_extra', [])
@@ -138,38 +177,6 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-
 class resetcounteronoverlays(Command):
     args = 'counter'
 
diff --git a/plasTeX/Packages/cleveref.py b/plasTeX/Packages/cleveref.py
index 9873014..4fb86c9 100644
--- a/plasTeX/Packages/cleveref.py
+++ b/plasTeX/Packages/cleveref.py
@@ -6,6 +6,8 @@ from plasTeX.DOM import Node
 from typing import Union, Tuple
 
 class CleverRef(ref):
+    args = '* label:idref'
+
     def refname_raw(self) -> Union[str, Tuple[str, str]]:
         """
         The type of the object being referenced.
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 9aab881..ca841c7 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -21,8 +21,10 @@ def addBaseURL(self, urlarg):
 
 # Basic macros
 
-ref.args = '* %s' % ref.args
-pageref.args = '* %s' % pageref.args
+def ProcessOptions(options, document):
+    # The starred forms don't create links
+    for macro in [ref, pageref]:
+        document.context.localMacro(macro).args = '* %s' % macro.args
 
 class href(Command):
     args = 'url:url self'
diff --git a/plasTeX/Packages/verse.py b/plasTeX/Packages/verse.py
index 2259395..fdb1c18 100644
--- a/plasTeX/Packages/verse.py
+++ b/plasTeX/Packages/verse.py
@@ -1,12 +1,14 @@
 from plasTeX.Base.LaTeX.Quotations import verse
 
-verse.args = '[ width:nox ]'
+def ProcessOptions(options, document):
+    document.context.localMacro(verse).args = '[ width:nox ]'
 
 class altverse(verse):
-    pass
+    args = '[ width:nox ]'
 
 class patverse(verse):
-    pass
+    args = '[ width:nox ]'
 
 class patverse__star(verse):
+    args = '[ width:nox ]'
     macroName = 'patverse*'
-- 
2.43.0


From 38d7b282e198823bde7be689beb82eb83c308411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 089/119] fix: tabulars store properties of the document on
 their shared base class

---
 plasTeX/Base/LaTeX/Arrays.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 675fe34..fd9fead 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -539,11 +539,12 @@ class Array(Environment):
         before = None
         leftborder = None
 
-        tex.pushToken(Array)
+        end = Array()
+        tex.pushToken(end)
         tex.pushTokens(colspec)
 
         for tok in tex.itertokens():
-            if tok is Array:
+            if tok is end:
                 break
 
             if tok.isElementContentWhitespace:
-- 
2.43.0


From 7af66ebccb21b5d53076184af73cd59bfd580558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 090/119] fix: braces in documents that load ifthen

---
 plasTeX/Packages/ifthen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 3afd0b8..c1e235b 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -7,7 +7,8 @@ A Python implementation of the ifthen package.
 from contextlib import contextmanager
 
 from plasTeX import Command, TeXFragment, number
-from plasTeX.Tokenizer import Token, BeginGroup, EndGroup, EscapeSequence
+from plasTeX import Tokenizer
+from plasTeX.Tokenizer import Token
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
 from typing import Union, List
 
@@ -221,8 +222,8 @@ class whiledo(ifthenelse):
         if not test_result.state:
             return []
         # Process the body, then start over
-        begin, end = BeginGroup('{'), EndGroup('}')
-        return (list(a['operations']) + [EscapeSequence('whiledo')]
+        begin, end = Tokenizer.BeginGroup('{'), Tokenizer.EndGroup('}')
+        return (list(a['operations']) + [Tokenizer.EscapeSequence('whiledo')]
                 + [begin] + list(a['test']) + [end]
                 + [begin] + list(a['operations']) + [end])
 
-- 
2.43.0


From 5e81da5afff2dd076c426cbe43536bd49f669fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 091/119] fix: escape the titles and numbers that HTML5 layouts
 put in attributes and tables of contents

---
 plasTeX/Renderers/HTML5/Index.jinja2s              |  2 +-
 .../HTML5/Themes/default/default-layout.jinja2     | 14 +++++++-------
 .../HTML5/Themes/default/document-layout.jinja2    | 14 +++++++-------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..9a8523a 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
index c31176a..f13b95c 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
@@ -3,7 +3,7 @@
 {% set toc = doc.tableofcontents if config.html5['display-toc'] else None %}
 {% set rendererdata = obj.ownerDocument.rendererdata['html5'] %}
 {% macro tocEntry(section) %}
-<span class="toc_ref">{{ section.ref.textContent }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
+<span class="toc_ref">{{ section.ref.textContent | e }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
 {% macro isActive(section) %}
 {% if section in links.breadcrumbs %} active{% endif %}
 {% endmacro %}
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -144,13 +144,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
index a7aa818..3f09bbd 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
@@ -3,7 +3,7 @@
 {% set toc = doc.tableofcontents if config.html5['display-toc'] else None %}
 {% set rendererdata = obj.ownerDocument.rendererdata['html5'] %}
 {% macro tocEntry(section) %}
-<span class="toc_ref">{{ section.ref.textContent }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
+<span class="toc_ref">{{ section.ref.textContent | e }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
 {% macro isActive(section) %}
 {% if section in links.breadcrumbs %} active{% endif %}
 {% endmacro %}
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -143,13 +143,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
-- 
2.43.0


From 4ef64efcf8fc9b45c51c1a7c206b8a3a8aabc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 092/119] fix: escape the text of citations in HTML5

---
 plasTeX/Renderers/HTML5/Bibliography.jinja2s | 2 ++
 plasTeX/Renderers/HTML5/natbib.jinja2s       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/plasTeX/Renderers/HTML5/Bibliography.jinja2s b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
index 623b66d..f0409b9 100644
--- a/plasTeX/Renderers/HTML5/Bibliography.jinja2s
+++ b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
@@ -19,6 +19,8 @@ name: cite
 {% for item in obj.citation() %}
   {% if item.idref and item.idref.bibitem.url %}
   <a href="{{ item.idref.bibitem.url }}">{{ item }}</a>
+  {% elif item is string %}
+  {{ item | e }}
   {% else %}
   {{ item }}
   {% endif %}
diff --git a/plasTeX/Renderers/HTML5/natbib.jinja2s b/plasTeX/Renderers/HTML5/natbib.jinja2s
index 0a07470..8cb8afd 100644
--- a/plasTeX/Renderers/HTML5/natbib.jinja2s
+++ b/plasTeX/Renderers/HTML5/natbib.jinja2s
@@ -6,6 +6,8 @@ type: xml
 {% for item in obj.citation() %}
 	{% if item.idref and item.idref.bibitem.url %}
 	<a href="{{ item.idref.bibitem.url }}" >{{ item }}</a>
+	{% elif item is string %}
+	{{ item | e }}
 	{% else %}
 	{{ item }}
 	{% endif %}
-- 
2.43.0


From aa3b2a046c2546555b0a79b49c1ae584f7e43c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 093/119] fix: amsthm theorem names keep their markup and are
 escaped

---
 plasTeX/Packages/amsthm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/amsthm.py b/plasTeX/Packages/amsthm.py
index 2b7e728..460a04a 100755
--- a/plasTeX/Packages/amsthm.py
+++ b/plasTeX/Packages/amsthm.py
@@ -165,7 +165,7 @@ class newtheorem(Command):
         self.parse(tex)
         a = self.attributes
         name = str(a['name'])
-        header = a['header'].textContent
+        header = a['header']
         star = a['*modifier*'] == '*'
         parent = a['parent']
         shared = a['shared']
-- 
2.43.0


From c03eae25e168cc080884d2d46407eed0733e524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 094/119] fix: escape the source of images in their alt
 attributes in HTML5

---
 plasTeX/Renderers/HTML5/FontSelection.jinja2s | 2 +-
 plasTeX/Renderers/HTML5/Pictures.jinja2s      | 2 +-
 plasTeX/Renderers/HTML5/Tabbing.jinja2s       | 2 +-
 plasTeX/Renderers/HTML5/graphicx.jinja2s      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/FontSelection.jinja2s b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
index 3b72b22..bab5a87 100644
--- a/plasTeX/Renderers/HTML5/FontSelection.jinja2s
+++ b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
@@ -84,5 +84,5 @@ name: Huge
 name: symbol
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }} vertical-align: {{ obj.vectorImage.depth.em }}">
-  <img src="obj.image.url" alt="{{ obj.source }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
+  <img src="obj.image.url" alt="{{ obj.source|e }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
 </object>
diff --git a/plasTeX/Renderers/HTML5/Pictures.jinja2s b/plasTeX/Renderers/HTML5/Pictures.jinja2s
index 2296bf9..d6d5fc2 100644
--- a/plasTeX/Renderers/HTML5/Pictures.jinja2s
+++ b/plasTeX/Renderers/HTML5/Pictures.jinja2s
@@ -3,7 +3,7 @@ name: picture
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source|e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/Tabbing.jinja2s b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
index 4e413bc..ca0710b 100644
--- a/plasTeX/Renderers/HTML5/Tabbing.jinja2s
+++ b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
@@ -3,7 +3,7 @@ name: tabbing
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source|e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/graphicx.jinja2s b/plasTeX/Renderers/HTML5/graphicx.jinja2s
index e39a01f..7c00730 100755
--- a/plasTeX/Renderers/HTML5/graphicx.jinja2s
+++ b/plasTeX/Renderers/HTML5/graphicx.jinja2s
@@ -5,9 +5,9 @@ name: includegraphics rotatebox scalebox reflectbox resizebox
 {% set image = obj.image %}
 {% endif %}
 {% if obj.style %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="{{ obj.style.inline}}" />
+<img src="{{ image.url}}" alt="{{ obj.source|e }}" style="{{ obj.style.inline}}" />
 {% else %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
+<img src="{{ image.url}}" alt="{{ obj.source|e }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
 {% endif %}
 
 name: DeclareGraphicsExtensions graphicspath
-- 
2.43.0


From dbffbdfb9480930f814ecabca94bb7c26691288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 095/119] fix: escape URLs and form names in HTML5 attributes

---
 plasTeX/Renderers/HTML5/html.jinja2s     |  4 +--
 plasTeX/Renderers/HTML5/hyperref.jinja2s | 32 ++++++++++++++----------
 plasTeX/Renderers/HTML5/url.jinja2s      |  2 +-
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/html.jinja2s b/plasTeX/Renderers/HTML5/html.jinja2s
index d5f2f0f..3f4d255 100644
--- a/plasTeX/Renderers/HTML5/html.jinja2s
+++ b/plasTeX/Renderers/HTML5/html.jinja2s
@@ -1,8 +1,8 @@
 name: htmladdnormallink
-<a href="{{obj.attributes.url }}" >{{ obj }}</a>
+<a href="{{ obj.attributes.url|striptags|e }}" >{{ obj }}</a>
 
 name: htmladdimg
-<img src="{{obj.attributes.url }}" />
+<img src="{{ obj.attributes.url|striptags|e }}" />
 
 name: rawhtml
 {{ obj }}
diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 437e7a9..13a7cce 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -1,8 +1,8 @@
 name: href
-<a href ="{{ obj.attributes.url}}">{{ obj }}</a>
+<a href ="{{ obj.attributes.url|striptags|e }}">{{ obj }}</a>
 
 name: url
-<a href="{{ obj.attributes.url or obj }}">{{ obj.attributes.url or obj }}</a>
+<a href="{{ (obj.attributes.url or obj)|striptags|e }}">{{ obj.attributes.url or obj }}</a>
 
 name: nolinkurl
 {{ obj.attributes.url }}
@@ -10,13 +10,13 @@ name: nolinkurl
 name: hyperbaseurl
 
 name: hyperimage
-<img src="{{ obj.attributes.url }}" />
+<img src="{{ obj.attributes.url|striptags|e }}" />
 
 name: hyperdef
-<a name="{{ obj.attributes.category }}.{{ obj.attributes.name }}" >{{ obj }}</a>
+<a name="{{ obj.attributes.category|striptags|e }}.{{ obj.attributes.name|striptags|e }}" >{{ obj }}</a>
 
 name: hyperref
-<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url }}#{{ obj.attributes.category }}.{{ obj.attributes.name}}{% endif %}" >{{ obj }}</a>
+<a href="{% if obj.idref %}{{ obj.idref.label.url }}{% else %}{{ obj.attributes.url|striptags|e }}#{{ obj.attributes.category|striptags|e }}.{{ obj.attributes.name|striptags|e }}{% endif %}" >{{ obj }}</a>
 
 name: hyperlink
 <a href="{{ obj.idref.label.url }}" >{{ obj }}</a>
@@ -34,32 +34,38 @@ name: autoref
 <a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>
 
 name: Form
-<form action="{{ obj.attributes.parameters.action }}" method="{{ obj.attributes.parameters.method }}" >{{ obj }}</form>
+<form action="{{ (obj.attributes.parameters.action if obj.attributes.parameters.action is string else obj.attributes.parameters.action|striptags)|e }}" method="{{ (obj.attributes.parameters.method if obj.attributes.parameters.method is string else obj.attributes.parameters.method|striptags)|e }}" >{{ obj }}</form>
 
 name: TextField
 <label for="{{ obj.id }}" >{{ obj.attributes.label }}</label>
-<input name="{{ obj.attributes.parameters.name or obj.attributes.label }}" id="{{ obj.id }}" />
+{% set name = obj.attributes.parameters.name or obj.attributes.label %}
+<input name="{{ (name if name is string else name|striptags)|e }}" id="{{ obj.id }}" />
 
 name: CheckBox
 <label for="{{ obj.id }}" >{{ obj.attributes.label }}</label>
-<input type="checkbox" name="{{ obj.attributes.parameters.name or obj.attributes.label }}" id="{{ obj.id }}" />
+{% set name = obj.attributes.parameters.name or obj.attributes.label %}
+<input type="checkbox" name="{{ (name if name is string else name|striptags)|e }}" id="{{ obj.id }}" />
 
 name: ChoiceMenu
 <label for="{{ obj.id }}" >{{ obj.attributes.label }}</label>
-<select name="{{ obj.attributes.parameters.name or obj.attributes.label }}" id="{{ obj.id }}"> 
+{% set name = obj.attributes.parameters.name or obj.attributes.label %}
+<select name="{{ (name if name is string else name|striptags)|e }}" id="{{ obj.id }}"> 
 {% for choice in obj.attributes.choices %}
-  <option>{{ choice }}</option>
+  <option>{{ choice|e if choice is string else choice }}</option>
 {% endfor %}
 </select>
 
 name: PushButton
-<input type="button" name="{{ obj.attributes.parameters.name or obj.attributes.label}}" id="{{ obj.id }}" value="{{ obj.attributes.label }}" />
+{% set name = obj.attributes.parameters.name or obj.attributes.label %}
+<input type="button" name="{{ (name if name is string else name|striptags)|e }}" id="{{ obj.id }}" value="{{ obj.attributes.label|striptags|e }}" />
 
 name: Submit
-<input type="submit" name="{{ obj.attributes.parameters.name or obj.attributes.label}}" id="{{ obj.id }}" value="{{ obj.attributes.label }}" />
+{% set name = obj.attributes.parameters.name or obj.attributes.label %}
+<input type="submit" name="{{ (name if name is string else name|striptags)|e }}" id="{{ obj.id }}" value="{{ obj.attributes.label|striptags|e }}" />
 
 name: Reset
-<input type="reset" name="{{ obj.attributes.parameters.name or obj.attributes.label}}" id="{{ obj.id }}" value="{{ obj.attributes.label }}" />
+{% set name = obj.attributes.parameters.name or obj.attributes.label %}
+<input type="reset" name="{{ (name if name is string else name|striptags)|e }}" id="{{ obj.id }}" value="{{ obj.attributes.label|striptags|e }}" />
 
 name: ref*
 <span >{{ obj.idref.label.ref }}</span>
diff --git a/plasTeX/Renderers/HTML5/url.jinja2s b/plasTeX/Renderers/HTML5/url.jinja2s
index e345a49..ad12e9c 100644
--- a/plasTeX/Renderers/HTML5/url.jinja2s
+++ b/plasTeX/Renderers/HTML5/url.jinja2s
@@ -1,4 +1,4 @@
 name: -url email path
-<a href="{{ obj }}">{{ obj }}</a>
+<a href="{{ obj|striptags|e }}">{{ obj }}</a>
 
 name: urldef urlstyle DeclareUrlCommand
-- 
2.43.0


From 279661e3d1fa1a71e5b2b9ed42a700b4ae99359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 096/119] fix: text that looks like the placeholder of an image
 size is left alone

---
 plasTeX/Renderers/PageTemplate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 527118f..5ad42a3 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -645,7 +645,8 @@ class PageTemplate(BaseRenderer):
                 return str(getattr(img, parameter))
         except KeyError: pass
 
-        return '&%s-%s;' % (filename, parameter)
+        # Not the placeholder of an image, leave it alone
+        return m.group(0)
 
 
 # Set Renderer variable so that plastex will know how to load it
-- 
2.43.0


From cb0d76592cd121e43c67600b618c44d31abe068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 097/119] fix: counter formats that refer to a redefined \the
 macro with symbols or markup in it

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index dfc684a..c2afa33 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1746,7 +1746,7 @@ class TheCounter(Command):
 
             # If there is a reference to another \\thecounter, invoke it
             if name.startswith('the') and name != re.sub(r'^the', '', self.__class__.__name__):
-                return ''.join(tex.expandTokens(self.ownerDocument.createElement(name).invoke(tex)))
+                return tex.expandTokens(self.ownerDocument.createElement(name).invoke(tex)).textContent
 
             # Get formatted value of the requested counter
             format = m.group(2)
-- 
2.43.0


From 414b5c1a3553e4697dc3f19277dec83461a6eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 098/119] fix: float: names set with \floatname keep their
 markup

---
 plasTeX/Packages/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/float.py b/plasTeX/Packages/float.py
index 082a6b9..e19b014 100644
--- a/plasTeX/Packages/float.py
+++ b/plasTeX/Packages/float.py
@@ -30,7 +30,7 @@ class restylefloat(Command):
     args = 'float:str'
 
 class floatname(Command):
-    args = 'float:str name:str'
+    args = 'float:str name:nox'
     def invoke(self, tex):
         Command.invoke(self, tex)
         float = str(self.attributes['float'])
-- 
2.43.0


From e569b6c972309641a47c7b3663d66b714a4e2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 099/119] fix: captions, references and listings are displayed
 as they are in XHTML

---
 plasTeX/Renderers/XHTML/Floats.zpts    | 2 +-
 plasTeX/Renderers/XHTML/hyperref.zpts  | 2 +-
 plasTeX/Renderers/XHTML/listings.zpts  | 6 +++---
 plasTeX/Renderers/XHTML/longtable.zpts | 2 +-
 plasTeX/Renderers/XHTML/subfig.zpts    | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Renderers/XHTML/Floats.zpts b/plasTeX/Renderers/XHTML/Floats.zpts
index 02aae16..2623edb 100644
--- a/plasTeX/Renderers/XHTML/Floats.zpts
+++ b/plasTeX/Renderers/XHTML/Floats.zpts
@@ -10,4 +10,4 @@ name: marginpar
 <p class="marginpar" tal:content="self/attributes/right">margin par</p>
 
 name: caption
-<div class="caption"><b tal:content="string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
+<div class="caption"><b tal:content="structure string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index e8919f5..d34247f 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -31,7 +31,7 @@ name: phantomsection
 <a tal:attributes="name self/id"></a>
 
 name: autoref
-<a tal:attributes="href self/idref/label/url" tal:content="string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
+<a tal:attributes="href self/idref/label/url" tal:content="structure string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
 
 name: Form
 <form tal:attributes="action self/attributes/parameters/action; 
diff --git a/plasTeX/Renderers/XHTML/listings.zpts b/plasTeX/Renderers/XHTML/listings.zpts
index 10f6c2e..b9a9300 100644
--- a/plasTeX/Renderers/XHTML/listings.zpts
+++ b/plasTeX/Renderers/XHTML/listings.zpts
@@ -2,12 +2,12 @@ name:lstset
 
 name:lstinputlisting lstlisting
 <div tal:condition="self/attributes/arguments/caption" class="caption" tal:attributes='id self/attributes/arguments/label'>
-  <b tal:content='string:${self/captionName} ${self/ref}'></b>: 
+  <b tal:content='structure string:${self/captionName} ${self/ref}'></b>: 
   <span tal:replace='self/attributes/arguments/caption'></span>
 </div>
-<pre tal:condition="self/html_listing" tal:replace='self/html_listing'></pre>
+<pre tal:condition="self/html_listing" tal:replace='structure self/html_listing'></pre>
 <pre tal:condition="not:self/html_listing" tal:content='text self/plain_listing'></pre>
 
 name: lstinline
-<tt tal:condition="self/html_listing" tal:replace='self/html_listing'></tt>
+<tt tal:condition="self/html_listing" tal:replace='structure self/html_listing'></tt>
 <tt tal:condition="not:self/html_listing" tal:content='text self/plain_listing'></tt>
diff --git a/plasTeX/Renderers/XHTML/longtable.zpts b/plasTeX/Renderers/XHTML/longtable.zpts
index f67ad24..2f73587 100644
--- a/plasTeX/Renderers/XHTML/longtable.zpts
+++ b/plasTeX/Renderers/XHTML/longtable.zpts
@@ -2,7 +2,7 @@ name: longtable
 type: xml
 <div tal:attributes="id self/title/id">
 <div tal:condition="self/title" class="caption"><b 
-     tal:content="string:${self/title/title} ${self/title/ref}">Figure 1.1</b>: 
+     tal:content="structure string:${self/title/title} ${self/title/ref}">Figure 1.1</b>: 
      <span tal:content="self/title">Caption text</span></div>
 <table class="tabular" cellspacing="0">
 <tr tal:repeat="row self">
diff --git a/plasTeX/Renderers/XHTML/subfig.zpts b/plasTeX/Renderers/XHTML/subfig.zpts
index 0abfd40..f49d316 100644
--- a/plasTeX/Renderers/XHTML/subfig.zpts
+++ b/plasTeX/Renderers/XHTML/subfig.zpts
@@ -1,11 +1,11 @@
 name: subfloat subfig
 <table class="subfloat" tal:attributes="id self/id">
 <tr><td tal:content="self"></td></tr>
-<tr><td style="text-align:center">(<span tal:replace="string:${self/subref}">x</span>) <span tal:content="self/title">Sub-caption</span></td></tr>
+<tr><td style="text-align:center">(<span tal:replace="structure string:${self/subref}">x</span>) <span tal:content="self/title">Sub-caption</span></td></tr>
 </table>
 
 name: subref
-<a tal:attributes="href self/idref/label/url" tal:content="string:(${self/idref/label/subref})">#.#.#</a>
+<a tal:attributes="href self/idref/label/url" tal:content="structure string:(${self/idref/label/subref})">#.#.#</a>
 
 name: subref*
 <a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/subref">#.#.#</a>
-- 
2.43.0


From 6e5ba488061999e82121fa2622b01eeb844ed212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 100/119] fix: characters that the output encoding lacks are
 written as references instead of raising an exception

---
 plasTeX/Renderers/PageTemplate/__init__.py | 1 +
 plasTeX/Renderers/__init__.py              | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 5ad42a3..30e39c7 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -280,6 +280,7 @@ class PageTemplate(BaseRenderer):
 
     outputType = str
     fileExtension = '.xml'
+    encodingErrors = 'xmlcharrefreplace'
 
     def __init__(self, *args, **kwargs):
         BaseRenderer.__init__(self, *args, **kwargs)
diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..31cc7bb 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -199,7 +199,7 @@ class Renderable(object):
                 # Write the file content
 
                 enc = child.config['files']['output-encoding']
-                with open(filename, 'w', encoding=enc) as f:
+                with open(filename, 'w', encoding=enc, errors=r.encodingErrors) as f:
                     f.write(val)
 
                 status.info(' ] ')
@@ -557,7 +557,7 @@ class Renderer(dict):
         errs = self.encodingErrors
         for f in files:
             try:
-                with open(f, 'r', encoding=encoding, errors=errs) as fd:
+                with open(f, 'r', encoding=encoding, errors='replace') as fd:
                     s = fd.read()
 
             except IOError as msg:
@@ -568,7 +568,7 @@ class Renderer(dict):
             if isinstance(postProcess, collections.abc.Callable):
                 s = postProcess(document, s)
 
-            with open(f, 'w', encoding=encoding) as fd:
+            with open(f, 'w', encoding=encoding, errors=errs) as fd:
                 fd.write(''.join(s))
 
     def find(self, keys, default=None):
-- 
2.43.0


From 13987fb09796d81a3743b3f4d607b08068860814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 101/119] fix: url: addresses keep their dashes and quotes

---
 plasTeX/Packages/url.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/Packages/url.py b/plasTeX/Packages/url.py
index 75a6e28..b2bda79 100644
--- a/plasTeX/Packages/url.py
+++ b/plasTeX/Packages/url.py
@@ -2,6 +2,7 @@ from plasTeX.Base import Command
 
 class url(Command):
     args = 'url:url'
+    nonNormalizedAttrs = ['url']
 
 class urldef(Command):
     args = 'name:cs type:cs'
-- 
2.43.0


From 31c86623284c7d1765a323b05bafa2b54b424e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 102/119] fix: multicols environments end where they end

---
 plasTeX/Packages/multicol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/multicol.py b/plasTeX/Packages/multicol.py
index 38dbe04..c0b8e4a 100644
--- a/plasTeX/Packages/multicol.py
+++ b/plasTeX/Packages/multicol.py
@@ -4,7 +4,7 @@ class multicols(Environment):
     args = 'num:int [ text:nox ] [ width:dimen ]'
 
     def invoke(self, tex):
-        super(multicols, self).invoke(tex)
-        if self.macroMode == self.MODE_BEGIN:
-            return self.attributes['text']
-        return []
+        res = super(multicols, self).invoke(tex)
+        if self.macroMode == self.MODE_BEGIN and self.attributes['text']:
+            return [self] + list(self.attributes['text'])
+        return res
-- 
2.43.0


From a1935bc9bd712fbb4ea9b0383495471c2f84c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 103/119] fix: python theme: list the footnotes of the start
 page

---
 plasTeX/Renderers/XHTML/Themes/python/document-layout.html | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
index 3b6a02c..e265a9c 100644
--- a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
+++ b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
@@ -53,6 +53,13 @@
 
 <div tal:content="self">section content</div>
 
+<div id="footnotes" tal:condition="self/footnotes">
+<p><b>Footnotes</b></p>
+<ol>
+<li tal:repeat="footnote self/footnotes" tal:content="footnote" tal:attributes="id footnote/id">footnote text</li>
+</ol>
+</div>
+
 <div tal:condition="self/tableofcontents" class="contents">
 <hr />
 <ul>
-- 
2.43.0


From d05f75a0e53cd26d2e8182b199a06e2ea911ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 104/119] fix: give list items the identifier that references
 link to

---
 plasTeX/Renderers/HTML5/Lists.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Lists.zpts    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f387ee..147a600 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -8,7 +8,7 @@ name: itemize
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li{% if item['@id'] %} id="{{ item.id }}"{% endif %}>{{ item }}</li>
 {% endfor %}
 </ol>
 
diff --git a/plasTeX/Renderers/XHTML/Lists.zpts b/plasTeX/Renderers/XHTML/Lists.zpts
index 11c1d9c..1792148 100644
--- a/plasTeX/Renderers/XHTML/Lists.zpts
+++ b/plasTeX/Renderers/XHTML/Lists.zpts
@@ -5,7 +5,7 @@ name: itemize
 
 name: enumerate
 <ol class="enumerate">
-<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position"></li>
+<li tal:repeat="item self" tal:content="item" tal:attributes="value item/position; id item/id"></li>
 </ol>
 
 name: description
-- 
2.43.0


From 00c1d9f2bf5c37de26ae555bbb4657ef72d27215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 105/119] fix: HTML5: anchors for the labelled rows of
 displayed equations

---
 plasTeX/Renderers/HTML5/Math.jinja2s | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Math.jinja2s b/plasTeX/Renderers/HTML5/Math.jinja2s
index 26cad1b..dd6a301 100644
--- a/plasTeX/Renderers/HTML5/Math.jinja2s
+++ b/plasTeX/Renderers/HTML5/Math.jinja2s
@@ -5,7 +5,8 @@ name: ensuremath
 \({{ obj.mathjax_source }}\)
 
 name: displaymath equation* eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
-<div class="displaymath" id="{{ obj.id }}">
+<div class="displaymath" id="{{ obj.id }}">{% for row in obj %}{% if row['@id'] %}<span id="{{ row.id }}"></span>{% endif %}{% endfor %}
+
   {{ obj.mathjax_source }}
 </div>
 
-- 
2.43.0


From 0d7a028bc3b6890590db9ac3eb00006f53cda241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 106/119] fix: XHTML: flalign and multline are rendered like
 the other displays

---
 plasTeX/Renderers/XHTML/Math.zpts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/XHTML/Math.zpts b/plasTeX/Renderers/XHTML/Math.zpts
index c3e4fe4..98db2f4 100644
--- a/plasTeX/Renderers/XHTML/Math.zpts
+++ b/plasTeX/Renderers/XHTML/Math.zpts
@@ -26,7 +26,7 @@ name: displaymath equation equation*
 </table>
 
 name: eqnarray eqnarray* align align* gather gather* falign falign* \
-      multiline multiline* alignat alignat* split
+      flalign flalign* multline multline* multiline multiline* alignat alignat* split
 type: xml
 <table class="eqnarray" cellspacing="0" cellpadding="7" width="100%"
        tal:attributes="id self/id">
-- 
2.43.0


From 36e791f2820491a3f8e6fc5ee19220b08a00a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 107/119] fix: captions of floats with several captions can be
 linked to

---
 plasTeX/Base/LaTeX/Floats.py           | 3 +++
 plasTeX/Renderers/HTML5/Floats.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Floats.zpts    | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Floats.py b/plasTeX/Base/LaTeX/Floats.py
index ced2516..36b2c64 100644
--- a/plasTeX/Base/LaTeX/Floats.py
+++ b/plasTeX/Base/LaTeX/Floats.py
@@ -13,6 +13,8 @@ class Caption(Command):
     blockType = True
     # Is the caption attached to an object?
     attached = False
+    # Does the float have the identifier of the caption?
+    anchored = False
 
     def invoke(self, tex):
         res = Command.invoke(self, tex)
@@ -40,6 +42,7 @@ class Float(Environment):
             # If there is only one caption, apply it to the float
             if len(captions) == 1:
                 captions[0].attached = True
+                captions[0].anchored = True
                 self.title = captions[0]
             # If there are the same number of captions as there are
             # captionable items, apply the captions to the objects.
diff --git a/plasTeX/Renderers/HTML5/Floats.jinja2s b/plasTeX/Renderers/HTML5/Floats.jinja2s
index 6652fbc..e7054eb 100644
--- a/plasTeX/Renderers/HTML5/Floats.jinja2s
+++ b/plasTeX/Renderers/HTML5/Floats.jinja2s
@@ -12,7 +12,7 @@ name: marginpar
 <p class="marginpar">{{ obj.attributes.right }}</p>
 
 name: caption caption*
-<figcaption>
+<figcaption{% if obj['@id'] and not obj.anchored %} id="{{ obj.id }}"{% endif %}>
   {% if obj.title %}<span class="caption_title">{{ obj.title }}</span>{% endif %}
   {% if obj.ref %}<span class="caption_ref">{{ obj.ref }}</span>{% endif %}
   <span class="caption_text">{{ obj }}</span> 
diff --git a/plasTeX/Renderers/XHTML/Floats.zpts b/plasTeX/Renderers/XHTML/Floats.zpts
index 2623edb..421b6e7 100644
--- a/plasTeX/Renderers/XHTML/Floats.zpts
+++ b/plasTeX/Renderers/XHTML/Floats.zpts
@@ -10,4 +10,4 @@ name: marginpar
 <p class="marginpar" tal:content="self/attributes/right">margin par</p>
 
 name: caption
-<div class="caption"><b tal:content="structure string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
+<div class="caption"><a tal:condition="not:self/anchored" tal:attributes="id self/id; name self/id"></a><b tal:content="structure string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
-- 
2.43.0


From 5d4de5b537f1f8049106ad7d441ea60a775ff59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 108/119] fix: HTML5: see entries of the index are no links

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 9a8523a..dd91baf 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,8 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    {% if page.url %}<a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>{% else %}{{ page }}{% endif %}
+
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
-- 
2.43.0


From 5a0b39a4bf267c4d877a1bbb87173f38612013ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 109/119] fix: the heading of the index has the identifier that
 links to it use

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Index.zpts    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index dd91baf..f4b3ba0 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -1,6 +1,6 @@
 name: theindex printindex
 {% set groups = obj.groups %}
-<h1>{{ obj.title }}</h1>
+<h1 id="{{ obj.id }}">{{ obj.title }}</h1>
 
 <nav class="index-groups">
 {% for group in groups %}
diff --git a/plasTeX/Renderers/XHTML/Index.zpts b/plasTeX/Renderers/XHTML/Index.zpts
index e3f5efd..5196946 100644
--- a/plasTeX/Renderers/XHTML/Index.zpts
+++ b/plasTeX/Renderers/XHTML/Index.zpts
@@ -1,5 +1,5 @@
 name: theindex printindex
-<h1 tal:content="self/title"></h1>
+<h1 tal:attributes="id self/id" tal:content="self/title"></h1>
 
 <div tal:define="groups self/groups">
 
-- 
2.43.0


From 6c8ec0b6e0abd0dc61735e155e7d93f330dbcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 110/119] fix: the headings of index groups have identifiers of
 their own

---
 plasTeX/Base/LaTeX/Index.py           | 7 +++++++
 plasTeX/Renderers/HTML5/Index.jinja2s | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 69c0acc..b569c62 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -82,6 +82,7 @@ class IndexUtils(object):
         """
         batches = []
         current = ''
+        ids = set()
         for item in self:
             try:
                 # A ligature belongs to its first letter
@@ -98,7 +99,13 @@ class IndexUtils(object):
             if current != title:
                 newgroup = self.IndexGroup()
                 newgroup.title = title
+                # A letter comes again if there are other symbols in between
+                n = 1
                 newgroup.id = label
+                while newgroup.id in ids:
+                    n += 1
+                    newgroup.id = '%s%d' % (label, n)
+                ids.add(newgroup.id)
                 batches.append(newgroup)
                 current = title
             batches[-1].append(item)
diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index f4b3ba0..a869c06 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -4,7 +4,7 @@ name: theindex printindex
 
 <nav class="index-groups">
 {% for group in groups %}
-<a href="#{{ group.id }}" class="{% if loop.last %}index-group-last{% else %}index-group{% endif %}">{{ group.title }}</a>
+<a href="#IDXGROUP.{{ group.id }}" class="{% if loop.last %}index-group-last{% else %}index-group{% endif %}">{{ group.title }}</a>
 {% endfor %}
 </nav>
 
@@ -12,7 +12,7 @@ name: theindex printindex
 {% for group in groups %}
 <section class="theindex">
 
-<h2 id="{{ group.id}}">{{ group.title }}</h2>
+<h2 id="IDXGROUP.{{ group.id}}">{{ group.title }}</h2>
 {% for column in group %}
 <ul class="index-column">
 {% for item in column recursive %}
-- 
2.43.0


From 3e1280e6d407cf53e204ad39c0e5198d36c8c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 111/119] fix: bibliography items have other identifiers than
 the objects of labels

---
 plasTeX/Base/LaTeX/Bibliography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index afc2259..1570bb8 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -65,7 +65,11 @@ class thebibliography(List):
 
         @property
         def id(self):
-            return self.attributes['key']
+            key = self.attributes['key']
+            if key in self.ownerDocument.context.labels:
+                # Labels and keys are different things
+                return 'cite.%s' % key
+            return key
 
         @id.setter
         def id(self, value):
-- 
2.43.0


From f1d8bdabc047a9f10fbd411e18a3d15546fc11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 112/119] fix: links to bibliographies that are no files lead
 to them

---
 plasTeX/Renderers/HTML5/Bibliography.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/Bibliography.zpts    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Bibliography.jinja2s b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
index f0409b9..24ca214 100644
--- a/plasTeX/Renderers/HTML5/Bibliography.jinja2s
+++ b/plasTeX/Renderers/HTML5/Bibliography.jinja2s
@@ -10,7 +10,7 @@ name: bibliographystyle
 
 name: bibliography
 <div class="bibliography">
-<h1>{{ obj.title }}</h1>
+<h1{% if obj.config.document['toc-non-files'] %} id="{{ obj.id }}"{% endif %}>{{ obj.title }}</h1>
 {{ obj }}
 </div>
 
diff --git a/plasTeX/Renderers/XHTML/Bibliography.zpts b/plasTeX/Renderers/XHTML/Bibliography.zpts
index 50b8656..d0b8e13 100644
--- a/plasTeX/Renderers/XHTML/Bibliography.zpts
+++ b/plasTeX/Renderers/XHTML/Bibliography.zpts
@@ -13,7 +13,7 @@ name: bibliographystyle
 
 name: bibliography
 <div>
-<h1 tal:content="self/title">Bibliography</h1>
+<h1 tal:attributes="id self/id" tal:content="self/title">Bibliography</h1>
 
 <div tal:replace="self"></div>
 </div>
-- 
2.43.0


From 539c7445ca28de348ca543d27f2910070dc840d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 113/119] fix: footnote marks link to the text that belongs to
 them

---
 plasTeX/Base/LaTeX/Footnotes.py           | 21 ++++++++++++++++++++-
 plasTeX/Renderers/HTML5/Footnotes.jinja2s |  6 +++++-
 plasTeX/Renderers/XHTML/Footnotes.zpts    |  2 +-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Footnotes.py b/plasTeX/Base/LaTeX/Footnotes.py
index 7ef98b3..417e24d 100644
--- a/plasTeX/Base/LaTeX/Footnotes.py
+++ b/plasTeX/Base/LaTeX/Footnotes.py
@@ -23,6 +23,21 @@ class footnote(Command):
 class footnotemark(Command):
     args = '[ num:int ]'
     mark = None
+    text = None
+
+    @property
+    def textUrl(self):
+        """ The location of the text of the footnote """
+        if self.text is None:
+            return None
+        files = []
+        for node in (self, self.text):
+            while node is not None and not node.filename:
+                node = node.parentNode
+            files.append(node)
+        if files[0] is files[1]:
+            return '#footnotes'
+        return self.text.url
 
     def invoke(self, tex):
         # Add the footnotemarks to the document
@@ -40,7 +55,11 @@ class footnotetext(footnote):
     
     def invoke(self, tex):
         output = footnote.invoke(self, tex)
-        self.mark = self.ownerDocument.userdata.get('footnotemarks',[None]).pop(0)
+        # Without a mark it is a footnote of its own
+        marks = self.ownerDocument.userdata.get('footnotemarks')
+        if marks:
+            self.mark = marks.pop(0)
+            self.mark.text = self
         return output
 
 #
diff --git a/plasTeX/Renderers/HTML5/Footnotes.jinja2s b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
index ebb237e..8607034 100644
--- a/plasTeX/Renderers/HTML5/Footnotes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Footnotes.jinja2s
@@ -4,8 +4,12 @@ name: footnote
 </a>
 
 name: footnotemark
-<a class="footnote" href="#footnotes">
+{% if obj.textUrl %}
+<a class="footnote" href="{{ obj.textUrl }}">
   <sup class="footnotemark">{{ obj.mark.attributes.num }}</sup>
 </a>
+{%- else %}
+<sup class="footnotemark">{{ obj.mark.attributes.num or '&#8224;' }}</sup>
+{%- endif %}
 
 name: footnotetext
diff --git a/plasTeX/Renderers/XHTML/Footnotes.zpts b/plasTeX/Renderers/XHTML/Footnotes.zpts
index f956326..912bcf4 100644
--- a/plasTeX/Renderers/XHTML/Footnotes.zpts
+++ b/plasTeX/Renderers/XHTML/Footnotes.zpts
@@ -2,6 +2,6 @@ name: footnote
 <a class="footnote" tal:attributes="href string:#${self/id}"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
 
 name: footnotemark
-<a class="footnote" href="#footnotes"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a>
+<a class="footnote" tal:condition="self/textUrl" tal:attributes="href self/textUrl"><sup class="footnotemark" tal:content="self/mark/attributes/num">&#8224;</sup></a><sup class="footnotemark" tal:condition="not:self/textUrl" tal:content="self/mark/attributes/num">&#8224;</sup>
 
 name: footnotetext
-- 
2.43.0


From 1531dc88c7357baa4b52ef5c7f9cc2fa90981800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 114/119] fix: labels of listings are labels of the listing

---
 plasTeX/Packages/listings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/listings.py b/plasTeX/Packages/listings.py
index e9be29e..895ff17 100644
--- a/plasTeX/Packages/listings.py
+++ b/plasTeX/Packages/listings.py
@@ -199,9 +199,9 @@ def _format(self, file, wrap: bool, language:Optional[str] = None) -> None:
     label = arguments.get('label')
     if label:
         if hasattr(label, 'textContent'):
-            doc.context.label(label.textContent)
+            doc.context.label(label.textContent, self)
         else:
-            doc.context.label(label)
+            doc.context.label(label, self)
 
     # Check the textual LaTeX arguments and convert them to Python
     # attributes.
-- 
2.43.0


From ce1f3bd8f2f512265b99b5309e11b1cc9df83082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 115/119] fix: captions of listings have identifiers,
 longtables without captions have none

---
 plasTeX/Renderers/HTML5/listings.jinja2s  | 2 +-
 plasTeX/Renderers/HTML5/longtable.jinja2s | 2 +-
 plasTeX/Renderers/XHTML/listings.zpts     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/listings.jinja2s b/plasTeX/Renderers/HTML5/listings.jinja2s
index a325f85..88b964a 100644
--- a/plasTeX/Renderers/HTML5/listings.jinja2s
+++ b/plasTeX/Renderers/HTML5/listings.jinja2s
@@ -2,7 +2,7 @@ name:lstset
 
 name:lstinputlisting lstlisting
 {% if obj.attributes.arguments.caption %}
-<div class="caption" id="{{ obj.attributes.arguments.label }}">
+<div class="caption" id="{{ obj.id }}">
   <b>{{ obj.captionName }} {{ obj.ref }}</b>: 
   {{ obj.attributes.arguments.caption }}
 </div>
diff --git a/plasTeX/Renderers/HTML5/longtable.jinja2s b/plasTeX/Renderers/HTML5/longtable.jinja2s
index 50c2070..0976716 100644
--- a/plasTeX/Renderers/HTML5/longtable.jinja2s
+++ b/plasTeX/Renderers/HTML5/longtable.jinja2s
@@ -1,5 +1,5 @@
 name: longtable
-<div id="{{ obj.title.id }}">
+<div{% if obj.title %} id="{{ obj.title.id }}"{% endif %}>
 {% if obj.title %}
 <div class="caption">
   <span class="table-label">{{ obj.title.title }} {{ obj.title.ref }}</span> 
diff --git a/plasTeX/Renderers/XHTML/listings.zpts b/plasTeX/Renderers/XHTML/listings.zpts
index b9a9300..0ae9480 100644
--- a/plasTeX/Renderers/XHTML/listings.zpts
+++ b/plasTeX/Renderers/XHTML/listings.zpts
@@ -1,7 +1,7 @@
 name:lstset
 
 name:lstinputlisting lstlisting
-<div tal:condition="self/attributes/arguments/caption" class="caption" tal:attributes='id self/attributes/arguments/label'>
+<div tal:condition="self/attributes/arguments/caption" class="caption" tal:attributes='id self/id'>
   <b tal:content='structure string:${self/captionName} ${self/ref}'></b>: 
   <span tal:replace='self/attributes/arguments/caption'></span>
 </div>
-- 
2.43.0


From 758a928a011047229ecd52ba15dfafda5c1da2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 116/119] fix: XHTML: \eqref and \cref are displayed

---
 plasTeX/Renderers/XHTML/Crossref.zpts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/XHTML/Crossref.zpts b/plasTeX/Renderers/XHTML/Crossref.zpts
index 5c33855..fbd88d4 100644
--- a/plasTeX/Renderers/XHTML/Crossref.zpts
+++ b/plasTeX/Renderers/XHTML/Crossref.zpts
@@ -1,6 +1,9 @@
-name: ref
+name: ref eqref
 <a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/ref">#.#.#</a>
 
+name: cref Cref
+<a tal:condition="exists:self/idref/label/ref" tal:attributes="href self/idref/label/url" tal:content="structure string:${self/refname} ${self/idref/label/ref}">Figure #.#.#</a>
+
 name: pageref
 <a tal:attributes="href self/idref/label/url">*</a>
 
-- 
2.43.0


From 237d4a7afcaaa4a115a2532549bb7a1c2982141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 117/119] fix: HTML5: \autoref without target is no link

---
 plasTeX/Renderers/HTML5/hyperref.jinja2s | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 13a7cce..c7df388 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -31,7 +31,8 @@ name: texorpdfstring
 {{ obj.attributes['tex'] }}
 
 name: autoref
-<a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>
+{% if 'label' in obj.idref and obj.idref.label.ref %}<a href="{{ obj.idref.label.url }}" >{{ obj.idref.label.captionName}} {{ obj.idref.label.ref }}</a>{% else %}??{% endif %}
+
 
 name: Form
 <form action="{{ (obj.attributes.parameters.action if obj.attributes.parameters.action is string else obj.attributes.parameters.action|striptags)|e }}" method="{{ (obj.attributes.parameters.method if obj.attributes.parameters.method is string else obj.attributes.parameters.method|striptags)|e }}" >{{ obj }}</form>
-- 
2.43.0


From 2c33dc89f6c66652c0bbe3b639e8fdf789ec3eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 118/119] fix: XHTML: theorems have their heading and the
 identifier that references link to

---
 plasTeX/Renderers/XHTML/Thms.zpts | 5 +++++
 1 file changed, 5 insertions(+)
 create mode 100644 plasTeX/Renderers/XHTML/Thms.zpts

diff --git a/plasTeX/Renderers/XHTML/Thms.zpts b/plasTeX/Renderers/XHTML/Thms.zpts
new file mode 100644
index 0000000..ce097eb
--- /dev/null
+++ b/plasTeX/Renderers/XHTML/Thms.zpts
@@ -0,0 +1,5 @@
+name: thmenv
+<div class="theorem" tal:attributes="id self/id">
+<b><span tal:replace="self/caption">Theorem</span> <span tal:condition="self/ref" tal:replace="self/ref">1.1</span></b> <span tal:condition="self/title" tal:content="structure string:(${self/title})">(Title)</span>
+<div tal:replace="self">Text</div>
+</div>
-- 
2.43.0


From 0698507ca8da5a1b44ed48d33d8659bca6f0e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 119/119] fix: \input reads file names that are written without
 braces

---
 plasTeX/Base/TeX/Primitives.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 17a0251..62c7f9b 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -449,6 +449,23 @@ class input(Command):
     """ \\input """
     args = 'name:str'
 
+    def parse(self, tex):
+        # The name can be written without braces
+        tex.readOptionalSpaces()
+        name = ''
+        for tok in tex.itertokens():
+            if tok.catcode in [Token.CC_LETTER, Token.CC_OTHER, Token.CC_SUB]:
+                name += tok
+                continue
+            if not name or tok.catcode != Token.CC_SPACE:
+                tex.pushToken(tok)
+            break
+        if not name:
+            return Command.parse(self, tex)
+        self.argSource = ' %s ' % name
+        self.attributes['name'] = name
+        return self.attributes
+
     def invoke(self, tex):
         a = self.parse(tex)
         assert a is not None
-- 
2.43.0

