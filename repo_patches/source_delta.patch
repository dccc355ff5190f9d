From 6f526b219ca3ce6e53df90a4dda589e8629a9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 01/46] fix: check super instruction jump targets for overflow

SWAP2_SWAP1_POP_JUMP truncated the jump target to its lowest 32 bits, such
that a target like 2^64+t was accepted whenever t is a JUMPDEST.
---
 go/interpreter/lfvm/super_instructions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/super_instructions.go b/go/interpreter/lfvm/super_instructions.go
index 5ce7b50..bdc9483 100644
--- a/go/interpreter/lfvm/super_instructions.go
+++ b/go/interpreter/lfvm/super_instructions.go
@@ -11,6 +11,7 @@
 package lfvm
 
 import (
+	"math"
 	"math/bits"
 
 	"github.com/holiman/uint256"
@@ -121,6 +122,10 @@ func opSwap2_Swap1_Pop_Jump(c *context) error {
 	top := c.stack.pop()
 	c.stack.pop()
 	trg := c.stack.peek()
+	// overflow check
+	if !trg.IsUint64() || trg.Uint64() > math.MaxInt32 {
+		return errInvalidJump
+	}
 	c.pc = int32(trg.Uint64()) - 1
 	*trg = *top
 	return checkJumpDest(c)
-- 
2.43.0


From 5ffc1042f3e6a9ce96f77901e583a8438e2f5a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 02/46] fix: report EVMC_FAILURE and EVMC_CALL_DEPTH_EXCEEDED
 as unsuccessful executions

The CREATE/CREATE2 instructions of evmzero and evmrs fail with EVMC_FAILURE if
the init code exceeds the EIP-3860 limit. This is a failure of the executed
contract, not of the interpreter.
---
 go/interpreter/evmc/evmc_interpreter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index a0000ae..8d7aa4b 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -106,7 +106,9 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
 		return res, nil
-	case evmc.Error(C.EVMC_OUT_OF_GAS),
+	case evmc.Error(C.EVMC_FAILURE),
+		evmc.Error(C.EVMC_CALL_DEPTH_EXCEEDED),
+		evmc.Error(C.EVMC_OUT_OF_GAS),
 		evmc.Error(C.EVMC_INVALID_INSTRUCTION),
 		evmc.Error(C.EVMC_UNDEFINED_INSTRUCTION),
 		evmc.Error(C.EVMC_BAD_JUMP_DESTINATION),
-- 
2.43.0


From 735d0a1dd72ebfca5f66246f42129676d68a268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 03/46] fix: evmrs SIGNEXTEND must keep the value for byte
 index 31

Extending a negative value from byte 31 shifted the mask by 256 bits, which
overflows and turned the result into all ones.
---
 rust/src/types/amount.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/types/amount.rs b/rust/src/types/amount.rs
index 827738b..0ad6969 100644
--- a/rust/src/types/amount.rs
+++ b/rust/src/types/amount.rs
@@ -381,7 +381,8 @@ impl u256 {
     pub fn signextend(self, rhs: Self) -> Self {
         let (lhs, lhs_overflow) = self.into_u64_with_overflow();
         let lhs = lhs as usize;
-        if lhs_overflow || lhs > 31 {
+        // for lhs = 31 all bits are kept (and a shift by 256 bits would overflow)
+        if lhs_overflow || lhs >= 31 {
             return rhs;
         }
 
-- 
2.43.0


From 1813f44c312b98da359301d98adcaea330f1778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 04/46] fix: evmrs read the no-op count from the slot following
 SkipNoOps

With fn-ptr-conversion-inline-dispatch the distance is stored in the slot after
the SkipNoOps function pointer; the pointer's own bytes were used instead, so
that falling through into a JUMPDEST following push data ended the execution.
---
 rust/src/types/code_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 375b9da..25d8a26 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -146,7 +146,7 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
             .get_data()
             .into_u64_saturating();
         #[cfg(not(feature = "fn-ptr-conversion-expanded-dispatch"))]
-        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc].get_data());
+        let offset = u32::from_ne_bytes(self.code_analysis.analysis[self.pc + 1].get_data());
         self.pc += offset as usize;
     }
 
-- 
2.43.0


From 3d9af58bccd6adea6f3cd56958541c99fbb225eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 05/46] fix: evmrs BLOCKHASH only provides the 256 most recent
 blocks

---
 rust/src/interpreter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 74a4391..3470776 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1114,11 +1114,15 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
     fn block_hash(&mut self) -> OpResult {
         self.gas_left.consume(20)?;
         let [block_number] = self.stack.pop()?;
-        self.stack.push(
-            u64::try_from(block_number)
-                .map(|idx| self.context.get_block_hash(idx as i64).into())
-                .unwrap_or(u256::ZERO),
-        )?;
+        let current = self.context.get_tx_context().block_number as u64;
+        let hash = match u64::try_from(block_number) {
+            // only the hashes of the 256 most recent complete blocks are available
+            Ok(number) if number < current && current - number <= 256 => {
+                self.context.get_block_hash(number as i64).into()
+            }
+            _ => u256::ZERO,
+        };
+        self.stack.push(hash)?;
         self.code_reader.next();
         self.return_from_op()
     }
-- 
2.43.0


From ec555e0a74497e7fc70b9618c84c87c0780e3ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 06/46] fix: evmrs charge the gas passed to a call before
 returning the rest

---
 rust/src/interpreter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/src/interpreter.rs b/rust/src/interpreter.rs
index 3470776..73c3d52 100644
--- a/rust/src/interpreter.rs
+++ b/rust/src/interpreter.rs
@@ -1711,9 +1711,10 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
+        // consume first, adding first may overflow
         self.gas_left.consume(endowment)?;
         self.gas_left.consume(stipend)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
@@ -1798,8 +1799,9 @@ impl<const STEPPABLE: bool> Interpreter<'_, STEPPABLE> {
             dest[..min_len].copy_from_slice(&output[..min_len]);
         }
 
-        self.gas_left.add(result.gas_left())?;
+        // consume first, adding first may overflow
         self.gas_left.consume(endowment)?;
+        self.gas_left.add(result.gas_left())?;
         self.gas_refund.add(result.gas_refund())?;
 
         self.stack
-- 
2.43.0


From 6a54e7eab749fe105312b14699121cfbc9289f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/46] fix: CT stacks of small capacity can be resized and
 reused

---
 go/ct/st/stack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 5815059..d479403 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -48,6 +48,9 @@ func NewStackWithSize(size int) *Stack {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
+	if cap(stack.stack) < size {
+		stack.stack = make([]U256, MaxStackSize)
+	}
 	stack.stack = stack.stack[:size]
 	return stack
 }
@@ -72,6 +75,11 @@ func (s *Stack) Resize(size int) {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
+	if cap(s.stack) < size {
+		stack := make([]U256, MaxStackSize)
+		copy(stack, s.stack)
+		s.stack = stack
+	}
 	s.stack = s.stack[:size]
 }
 
-- 
2.43.0


From b7d565f694a6d93ba8273ecd0edb47e27a52f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 08/46] fix: lfvm stepping accepts program counters beyond the
 end of the code

---
 go/interpreter/lfvm/ct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/ct.go b/go/interpreter/lfvm/ct.go
index 0bd6676..108dec6 100644
--- a/go/interpreter/lfvm/ct.go
+++ b/go/interpreter/lfvm/ct.go
@@ -56,11 +56,14 @@ func (a *ctAdapter) StepN(state *st.State, numSteps int) (*st.State, error) {
 
 	pcMap := a.getPcMap(state.Code)
 
+	// All positions beyond the end of the code are equivalent.
+	pc := min(int(state.Pc), len(pcMap.evmToLfvm)-1)
+
 	memory := convertCtMemoryToLfvmMemory(state.Memory)
 
 	// Set up execution context.
 	var ctxt = &context{
-		pc:           int32(pcMap.evmToLfvm[state.Pc]),
+		pc:           int32(pcMap.evmToLfvm[pc]),
 		params:       params,
 		context:      params.Context,
 		gas:          params.Gas,
-- 
2.43.0


From 848e457e42965617abd8ec0a0be6d51996a9ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 09/46] fix: CT specification covers SSTORE with exactly the
 EIP-2200 stipend left

---
 go/ct/spc/specification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index f8f6458..e5dccea 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -555,7 +555,7 @@ func getAllRules() []Rule {
 		rules = append(rules, sstoreOpReadOnlyMode(params))
 	}
 
-	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2300, name: "_EIP2200"})...)
+	rules = append(rules, tooLittleGas(instruction{op: vm.SSTORE, staticGas: 2301, name: "_EIP2200"})...)
 	rules = append(rules, tooFewElements(instruction{op: vm.SSTORE, staticGas: 2, pops: 2})...)
 
 	// --- JUMP ---
-- 
2.43.0


From 974b2ff880a2bf3a801e5666b0803c5737f80cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 10/46] fix: CT specification covers SSTORE of an unchanged
 value into a cold slot

---
 go/ct/spc/specification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index e5dccea..338ab0b 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -502,7 +502,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 
-		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 		{revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},     // invalid
 		// {revision: tosca.R09_Berlin, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: -10800}, // invalid
@@ -527,7 +527,7 @@ func getAllRules() []Rule {
 		// Certain storage configurations imply warm access. Not all
 		// combinations are possible; invalid ones are marked below.
 		sstoreRules = append(sstoreRules, []sstoreOpParams{
-			// {revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200}, // invalid
+			{revision: rev, warm: false, config: tosca.StorageAssigned, gasCost: 2200},
 			{revision: rev, warm: false, config: tosca.StorageAdded, gasCost: 22100},
 			// {revision: rev, warm: false, config: tosca.StorageAddedDeleted, gasCost: 2200, gasRefund: 19900},  // invalid
 			// {revision: rev, warm: false, config: tosca.StorageDeletedRestored, gasCost: 2200, gasRefund: 100}, // invalid
-- 
2.43.0


From 01ea1331e419b027919f37fa9366c90fd555a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 11/46] fix: floria kept the value transferred by failed calls
 of precompiled contracts

---
 go/processor/floria/run_context.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..9ab61bb 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -88,11 +88,17 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 
-- 
2.43.0


From 946dfb234f75cd8e4901cdba199fb66008d702b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 12/46] fix: floria returned the gas of failed calls of
 precompiled contracts

---
 go/processor/floria/precompiled.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 7433356..8995324 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -27,9 +27,12 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 	}
 	gas -= tosca.Gas(gasCost)
 	output, err := contract.Run(input)
+	if err != nil { // precompiled contracts only return errors on invalid input
+		return tosca.CallResult{}, true // failed calls consume all gas
+	}
 
 	return tosca.CallResult{
-		Success: err == nil, // precompiled contracts only return errors on invalid input
+		Success: true,
 		Output:  output,
 		GasLeft: gas,
 	}, true
-- 
2.43.0


From e4ee9d3afd67bc42f91bf7e79323d618436a204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 13/46] fix: floria kept the effects of creations failing to
 deploy their code

---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 9ab61bb..110b6a2 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -131,13 +131,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From e20b42d887291120550a83003a2c212a57cb46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 14/46] fix: floria did not consume the nonce of colliding
 creations and kept the created account of failed ones

---
 go/processor/floria/run_context.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 110b6a2..ee5d267 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -53,21 +53,21 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			code = tosca.Code(parameters.Input)
 			codeHash = hashCode(code)
 		}
+		senderNonce := r.GetNonce(parameters.Sender)
 		createdAddress = createAddress(
 			kind,
 			parameters.Sender,
-			r.GetNonce(parameters.Sender),
+			senderNonce,
 			parameters.Salt,
 			codeHash,
 		)
+		r.SetNonce(parameters.Sender, senderNonce+1)
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
 			return tosca.CallResult{}, nil
 		}
 
-		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
 
@@ -77,6 +77,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
-- 
2.43.0


From ef30eb0526a4bf603fb2e24337e122890d77147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 15/46] fix: floria did not add created contracts to the access
 list

---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index ee5d267..66ccc76 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -62,6 +62,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			codeHash,
 		)
 		r.SetNonce(parameters.Sender, senderNonce+1)
+		if r.blockParameters.Revision >= tosca.R09_Berlin {
+			r.AccessAccount(createdAddress)
+		}
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
-- 
2.43.0


From 311df243214eb082ae49d310dddc25478f8efe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 16/46] fix: floria let the nonce of creating contracts
 overflow

---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 66ccc76..c18a741 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -54,6 +54,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			codeHash = hashCode(code)
 		}
 		senderNonce := r.GetNonce(parameters.Sender)
+		if senderNonce+1 < senderNonce {
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
+		}
 		createdAddress = createAddress(
 			kind,
 			parameters.Sender,
-- 
2.43.0


From ae4e085f3048df4ae9e358d4c70bb5002e1542f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 17/46] fix: floria consumed the gas of calls exceeding the
 depth limit or balance

---
 go/processor/floria/run_context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index c18a741..16e324f 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -33,7 +33,7 @@ type runContext struct {
 
 func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (tosca.CallResult, error) {
 	if r.depth > MaxRecursiveDepth {
-		return tosca.CallResult{}, nil
+		return tosca.CallResult{GasLeft: parameters.Gas}, nil
 	}
 	r.depth++
 	defer func() { r.depth-- }()
@@ -91,7 +91,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
 			r.RestoreSnapshot(snapshot)
-			return tosca.CallResult{}, nil
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
 		}
 	}
 
-- 
2.43.0


From ecd11133b8db8ff6c2b92ce83c9ba14068e67876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 18/46] fix: floria executed no precompiled contracts in
 delegate and code calls

---
 go/processor/floria/run_context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 16e324f..c231265 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -47,6 +47,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	}
 
 	recipient := parameters.Recipient
+	codeAddress := recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
 	var createdAddress tosca.Address
 	if kind == tosca.Create || kind == tosca.Create2 {
 		if parameters.Recipient == (tosca.Address{}) {
@@ -104,7 +108,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From c0668d63c64d3fcef147f0ba531ef346e22ab1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 19/46] fix: floria let static calls modify the state through
 the state contract

---
 go/processor/floria/run_context.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index c231265..6e2185d 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -99,13 +99,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 	}
 
-	output, isStatePrecompiled := handleStateContract(
-		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
-	if isStatePrecompiled {
-		if !output.Success {
-			r.RestoreSnapshot(snapshot)
+	// The state contract modifies the state, thus it is only available for non-static calls.
+	if kind == tosca.Call && !r.static {
+		output, isStatePrecompiled := handleStateContract(
+			r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
+		if isStatePrecompiled {
+			if !output.Success {
+				r.RestoreSnapshot(snapshot)
+			}
+			return output, nil
 		}
-		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
-- 
2.43.0


From 2696ac5470b03f384d7df5ba5d0eb0d0872abd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 20/46] fix: floria passed the code of creations as their input

---
 go/processor/floria/run_context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 6e2185d..922b079 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -126,6 +126,11 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}, nil
 	}
 
+	input := parameters.Input
+	if kind == tosca.Create || kind == tosca.Create2 {
+		input = nil // the input of a creation is its code
+	}
+
 	interpreterParameters := tosca.Parameters{
 		BlockParameters:       r.blockParameters,
 		TransactionParameters: r.transactionParameters,
@@ -136,7 +141,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		Gas:                   parameters.Gas,
 		Recipient:             recipient,
 		Sender:                parameters.Sender,
-		Input:                 parameters.Input,
+		Input:                 input,
 		Value:                 parameters.Value,
 		CodeHash:              &codeHash,
 		Code:                  code,
-- 
2.43.0


From a45ae0cb986fd98b63dad0d268738bc84e62ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 21/46] fix: floria charged rejected creations with too large
 code

---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From f0eeb9f174498f2eb6c4a67a2c4481ea184f22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 22/46] fix: floria sold gas for nothing if its price overflows
 256 bits

---
 go/processor/floria/processor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..c5afdbf 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
+	"github.com/holiman/uint256"
 )
 
 const (
@@ -271,7 +272,14 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 }
 
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
-	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
+	cost, overflow := new(uint256.Int).MulOverflow(
+		transaction.GasPrice.ToUint256(),
+		uint256.NewInt(uint64(transaction.GasLimit)),
+	)
+	if overflow {
+		return fmt.Errorf("gas costs overflow: %v * %v", transaction.GasPrice, transaction.GasLimit)
+	}
+	gas := tosca.ValueFromUint256(cost)
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
-- 
2.43.0


From 3ce8c55090ac2c86bcfa29c08269d77ee28f6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 23/46] fix: floria truncated the increment of nonces to 64
 bits

---
 go/processor/floria/state_contract.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..aa14b64 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -228,19 +228,19 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
+	increment := big.NewInt(0).SetBytes(value[:])
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	if increment.Sign() <= 0 || increment.Cmp(big.NewInt(256)) >= 0 {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
 
-	state.SetNonce(account, state.GetNonce(account)+valueUint)
+	state.SetNonce(account, state.GetNonce(account)+increment.Uint64())
 
 	return gas, nil
 }
-- 
2.43.0


From ea57c43ae8df266178c3afab0a15b53d2523115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 24/46] fix: reverted EVMC executions do not grant gas refunds

---
 go/interpreter/evmc/evmc_interpreter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index 8d7aa4b..a361d90 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -105,6 +105,7 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is not really an error, but actually a revert.
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
+		res.GasRefund = 0   // < reverted executions do not grant refunds
 		return res, nil
 	case evmc.Error(C.EVMC_FAILURE),
 		evmc.Error(C.EVMC_CALL_DEPTH_EXCEEDED),
-- 
2.43.0


From ccf03569b34670525233d074b49c62b76fcd5948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 25/46] fix: lfvm hash cache read entries after releasing its
 lock

---
 go/interpreter/lfvm/hash_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..89ed7aa 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,11 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The hash needs to be retrieved before releasing the lock since the
+		// entry may be evicted and reused concurrently.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From 101a660593e7bf947bace257e87adb72dc1cb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 26/46] fix: evmzero profilers were corrupted by concurrent
 executions

---
 cpp/vm/evmzero/evmzero.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/vm/evmzero/evmzero.cc b/cpp/vm/evmzero/evmzero.cc
index 0781950..3753e47 100644
--- a/cpp/vm/evmzero/evmzero.cc
+++ b/cpp/vm/evmzero/evmzero.cc
@@ -10,6 +10,7 @@
 
 #include <cstdint>
 #include <iostream>
+#include <mutex>
 #include <span>
 #include <string_view>
 
@@ -148,8 +149,10 @@ class VM : public evmc_vm {
     if (logging_enabled_) {
       interpreter_result = Interpret(interpreter_args, logger_);
     } else if (profiling_enabled_) {
+      std::lock_guard guard(profiler_lock_);
       interpreter_result = Interpret(interpreter_args, profiler_);
     } else if (profiling_external_enabled_) {
+      std::lock_guard guard(profiler_lock_);
       interpreter_result = Interpret(interpreter_args, profiler_external_);
     } else {
       interpreter_result = Interpret(interpreter_args, no_observer_);
@@ -296,6 +299,7 @@ class VM : public evmc_vm {
   }
 
   void DumpProfile() {
+    std::lock_guard guard(profiler_lock_);
     if (profiling_enabled_) {
       profiler_.Collect().Dump();
     } else if (profiling_external_enabled_) {
@@ -304,6 +308,7 @@ class VM : public evmc_vm {
   }
 
   void ResetProfiler() {
+    std::lock_guard guard(profiler_lock_);
     if (profiling_enabled_) {
       profiler_.Reset();
     } else if (profiling_external_enabled_) {
@@ -336,6 +341,11 @@ class VM : public evmc_vm {
 
   NoObserver no_observer_;
   Logger logger_;
+
+  // The profilers keep the state of the ongoing measurements and are thus only
+  // usable by a single execution at a time. Nested executions are running in the
+  // same thread as the execution issuing them, thus the lock is recursive.
+  std::recursive_mutex profiler_lock_;
   Profiler<ProfilerMode::kFull> profiler_;
   Profiler<ProfilerMode::kExternal> profiler_external_;
 };
-- 
2.43.0


From 42e9765de4c8d69545bdf5da7556a49ce61fdc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 27/46] fix: evmrs logged padding of converted code as
 instructions

---
 rust/src/types/code_reader.rs | 19 +++++++++++++++----
 rust/src/types/observer.rs    |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/rust/src/types/code_reader.rs b/rust/src/types/code_reader.rs
index 25d8a26..bf14761 100644
--- a/rust/src/types/code_reader.rs
+++ b/rust/src/types/code_reader.rs
@@ -3,15 +3,15 @@ use std::cmp::min;
 use std::{self, ops::Deref};
 
 #[cfg(feature = "needs-fn-ptr-conversion")]
-use crate::interpreter::OpFn;
+use crate::interpreter::{GenericJumptable, OpFn};
 #[cfg(all(
     not(feature = "fn-ptr-conversion-expanded-dispatch"),
     feature = "fn-ptr-conversion-inline-dispatch"
 ))]
 use crate::types::op_fn_data::OP_FN_DATA_SIZE;
-#[cfg(not(feature = "needs-fn-ptr-conversion"))]
-use crate::types::Opcode;
-use crate::types::{u256, AnalysisContainer, CodeAnalysis, CodeByteType, FailStatus};
+use crate::types::{u256, AnalysisContainer, CodeAnalysis, CodeByteType, FailStatus, Opcode};
+#[cfg(feature = "needs-fn-ptr-conversion")]
+use crate::utils::GetGenericStatic;
 
 #[cfg(not(feature = "fn-ptr-conversion-expanded-dispatch"))]
 struct PushDataLen<const N: usize>;
@@ -81,6 +81,17 @@ impl<'a, const STEPPABLE: bool> CodeReader<'a, STEPPABLE> {
             .and_then(|analysis| analysis.get_func().ok_or(GetOpcodeError::Invalid))
     }
 
+    /// Returns whether the current operation is padding introduced by the code conversion, which
+    /// does not correspond to any instruction of the original code.
+    #[cfg(feature = "needs-fn-ptr-conversion")]
+    pub fn is_padding(&self) -> bool {
+        let jumptable = GenericJumptable::get::<STEPPABLE>();
+        let no_op = jumptable[Opcode::NoOp as u8 as usize] as usize;
+        let skip_no_ops = jumptable[Opcode::SkipNoOps as u8 as usize] as usize;
+        self.get()
+            .is_ok_and(|op| op as usize == no_op || op as usize == skip_no_ops)
+    }
+
     pub fn next(&mut self) {
         self.pc += 1;
     }
diff --git a/rust/src/types/observer.rs b/rust/src/types/observer.rs
index 72fa25e..acb3235 100644
--- a/rust/src/types/observer.rs
+++ b/rust/src/types/observer.rs
@@ -39,6 +39,10 @@ impl<W: Write, const STEPPABLE: bool> Observer<STEPPABLE> for LoggingObserver<W>
         let op = interpreter.code_reader.get().unwrap();
         #[cfg(feature = "needs-fn-ptr-conversion")]
         let op = {
+            if interpreter.code_reader.is_padding() {
+                // not an instruction of the executed code
+                return;
+            }
             let op = interpreter.code_reader[interpreter.code_reader.pc()];
             // SAFETY:
             // pre_op is called after the op is fetched, which means that code_reader.get() returned
-- 
2.43.0


From 6abab256c52e79e00dd957121bf3ac13558fee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 28/46] fix: strict comparisons restricted generated states to
 the wrong values

---
 go/ct/rlz/conditions.go  |  6 ++----
 go/ct/rlz/expressions.go | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index b30dfc8..013bb82 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -199,8 +199,7 @@ func (c *lt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *lt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictLess, domain.Predecessor(c.rhs), generator)
+	c.lhs.Restrict(RestrictLess, c.rhs, generator)
 }
 
 func (c *lt[T]) GetTestValues() []TestValue {
@@ -266,8 +265,7 @@ func (c *gt[T]) Check(s *st.State) (bool, error) {
 }
 
 func (c *gt[T]) Restrict(generator *gen.StateGenerator) {
-	domain := c.lhs.Domain()
-	c.lhs.Restrict(RestrictGreater, domain.Successor(c.rhs), generator)
+	c.lhs.Restrict(RestrictGreater, c.rhs, generator)
 }
 
 func (c *gt[T]) GetTestValues() []TestValue {
diff --git a/go/ct/rlz/expressions.go b/go/ct/rlz/expressions.go
index 3f7cb7e..452ddc4 100644
--- a/go/ct/rlz/expressions.go
+++ b/go/ct/rlz/expressions.go
@@ -252,7 +252,12 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 
 	switch kind {
 	case RestrictLess:
-		generator.AddBalanceUpperBound(variable, value.Sub(NewU256(1)))
+		if value.IsZero() { // no balance is less than zero
+			generator.AddBalanceLowerBound(variable, MaxU256())
+		} else {
+			value = value.Sub(NewU256(1))
+		}
+		generator.AddBalanceUpperBound(variable, value)
 	case RestrictLessEqual:
 		generator.AddBalanceUpperBound(variable, value)
 	case RestrictEqual:
@@ -261,7 +266,12 @@ func (b balance) Restrict(kind RestrictionKind, value U256, generator *gen.State
 	case RestrictGreaterEqual:
 		generator.AddBalanceLowerBound(variable, value)
 	case RestrictGreater:
-		generator.AddBalanceLowerBound(variable, value.Add(NewU256(1)))
+		if value == MaxU256() { // no balance is greater than the maximum
+			generator.AddBalanceUpperBound(variable, NewU256())
+		} else {
+			value = value.Add(NewU256(1))
+		}
+		generator.AddBalanceLowerBound(variable, value)
 	}
 }
 
-- 
2.43.0


From 5a18d68d2569da4e0308c3a1c24ee3d56ab17258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 29/46] fix: code generator moved already bound variables of
 isCode and isData constraints

---
 go/ct/gen/code.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index dad12c5..17e4546 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -440,6 +440,11 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 			if solver.usedPositions[int(pos.Uint64())] == isCode {
 				continue // already satisfied
 			}
+			if solver.usedPositions[int(pos.Uint64())] == isData {
+				return fmt.Errorf("%w, unable to satisfy isCode[%v]", ErrUnsatisfiable, cur.variable)
+			}
+			solver.placeRandomOp(int(pos.Uint64()))
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
@@ -458,11 +463,7 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 		}
 
 		if solver.usedPositions[pos] == isUnused {
-			// Pick a random op and lock it in.
-			randomOps := vm.ValidOpCodesNoPush()
-			op := randomOps[solver.rnd.Intn(len(randomOps))]
-			solver.markUsed(pos, op)
-			solver.ops = append(solver.ops, constOpConstraint{pos, op})
+			solver.placeRandomOp(pos)
 		}
 
 		solver.assign(cur.variable, pos)
@@ -470,14 +471,33 @@ func (solver *varCodeConstraintSolver) solveIsCode(varIsCodeConstraints []varIsC
 	return nil
 }
 
+// placeRandomOp picks a random op without data and locks it in at pos.
+func (solver *varCodeConstraintSolver) placeRandomOp(pos int) {
+	randomOps := vm.ValidOpCodesNoPush()
+	op := randomOps[solver.rnd.Intn(len(randomOps))]
+	solver.markUsed(pos, op)
+	solver.ops = append(solver.ops, constOpConstraint{pos, op})
+}
+
 func (solver *varCodeConstraintSolver) solveIsData(varIsDataConstraints []varIsDataConstraint) error {
 	for _, cur := range varIsDataConstraints {
-		// Check if the variable is already assigned and points to a slot marked
-		// as code. If so, we cannot satisfy this constraint!
-		if pos, isAssigned := solver.assignment[cur.variable]; isAssigned {
-			if pos.Lt(NewU256(uint64(solver.codeSize))) && solver.usedPositions[int(pos.Uint64())] == isCode {
+		// Check if the variable is already assigned. In this case, the slot it
+		// points to has to be marked as data, or it has to be possible to turn
+		// it into data by placing a PUSH1 in front of it.
+		if value, isAssigned := solver.assignment[cur.variable]; isAssigned {
+			if !value.Lt(NewU256(uint64(solver.codeSize))) {
+				return fmt.Errorf("%w, unable to satisfy isData[%v], out-of-bounds", ErrUnsatisfiable, cur.variable)
+			}
+			pos := int(value.Uint64())
+			if solver.usedPositions[pos] == isData {
+				continue // already satisfied
+			}
+			if pos == 0 || !solver.fits(pos-1, vm.PUSH1) {
 				return fmt.Errorf("%w, unable to satisfy isData[%v]", ErrUnsatisfiable, cur.variable)
 			}
+			solver.markUsed(pos-1, vm.PUSH1)
+			solver.ops = append(solver.ops, constOpConstraint{pos - 1, vm.PUSH1})
+			continue
 		}
 
 		// For the remaining variables, find a position and either populate an
-- 
2.43.0


From 8fc69e31f04c815130ad0d1438f836e79a4eca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 30/46] fix: transient storage generator used zero for non-zero
 constraints

---
 go/ct/gen/transient_storage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/transient_storage.go b/go/ct/gen/transient_storage.go
index 71d5599..05514a7 100644
--- a/go/ct/gen/transient_storage.go
+++ b/go/ct/gen/transient_storage.go
@@ -100,7 +100,11 @@ func (t *TransientStorageGenerator) Generate(assignment Assignment, rnd *rand.Ra
 		}
 
 		if nonZero {
-			transientStorage.Set(key, common.RandU256(rnd))
+			value := common.RandU256(rnd)
+			for value.IsZero() {
+				value = common.RandU256(rnd)
+			}
+			transientStorage.Set(key, value)
 		}
 		assignment[variable] = key
 	}
-- 
2.43.0


From 5905c0ce386f231e4105b2f7d74e62278371985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 31/46] fix: storage generator ignored conflicting constraints
 of variables with the same key

---
 go/ct/gen/storage.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/go/ct/gen/storage.go b/go/ct/gen/storage.go
index 20bbb33..70d0564 100644
--- a/go/ct/gen/storage.go
+++ b/go/ct/gen/storage.go
@@ -168,9 +168,21 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	builder := st.NewStorageBuilder()
 
 	// Process storage configuration constraints.
+	configured := map[U256]storageConfigConstraint{}
 	for _, con := range g.cfg {
 		key := getKey(con.key)
 
+		// Different variables may be bound to the same key.
+		if other, found := configured[key]; found {
+			value, isBound := assignment[con.newValue]
+			if con.config != other.config || (isBound && value != assignment[other.newValue]) {
+				return nil, fmt.Errorf("%w, key %v conflicting storage configuration", ErrUnsatisfiable, key)
+			}
+			assignment[con.newValue] = assignment[other.newValue]
+			continue
+		}
+		configured[key] = con
+
 		newValue, isBound := assignment[con.newValue]
 		if isBound {
 			// Check for conflict!
@@ -228,8 +240,13 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 	}
 
 	// Process warm/cold constraints.
+	warm := map[U256]bool{}
 	for _, con := range g.warmCold {
 		key := getKey(con.key)
+		if other, found := warm[key]; found && other != con.warm {
+			return nil, fmt.Errorf("%w, key %v conflicting warm/cold constraints", ErrUnsatisfiable, key)
+		}
+		warm[key] = con.warm
 		if !builder.IsInOriginal(key) {
 			builder.SetOriginal(key, RandU256(rnd))
 			builder.SetCurrent(key, RandU256(rnd))
-- 
2.43.0


From 90102712455e2e6c64f3ad636ebd29ec60ebcfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 32/46] fix: accounts generator ignored conflicts between
 emptiness, balance, and access constraints

---
 go/ct/gen/accounts.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/go/ct/gen/accounts.go b/go/ct/gen/accounts.go
index c5ed458..31b923b 100644
--- a/go/ct/gen/accounts.go
+++ b/go/ct/gen/accounts.go
@@ -160,11 +160,23 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	// them. We therefore track which addresses have already been used.
 	addressesInUse := map[tosca.Address]bool{}
 	addressesInUse[accountAddress] = true
-	for _, con := range g.warmCold {
-		if pos, isBound := assignment[con.key]; isBound {
+	markInUse := func(v Variable) {
+		if pos, isBound := assignment[v]; isBound {
 			addressesInUse[NewAddress(pos)] = true
 		}
 	}
+	for _, con := range g.warmCold {
+		markInUse(con.key)
+	}
+	for _, con := range g.emptyAccounts {
+		markInUse(con.address)
+	}
+	for _, con := range g.minBalance {
+		markInUse(con.address)
+	}
+	for _, con := range g.maxBalance {
+		markInUse(con.address)
+	}
 	getUnusedAddress := func() tosca.Address {
 		for {
 			address := RandomAddress(rnd)
@@ -206,12 +218,16 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 			nonEmptyAccounts[address] = struct{}{}
 		}
 	}
+	if _, found := emptyAccounts[accountAddress]; found {
+		// The account executing the code has a code, and is thus not empty.
+		return nil, fmt.Errorf("%w, self address %v can not be empty", ErrUnsatisfiable, accountAddress)
+	}
 	for address := range emptyAccounts {
 		accountsBuilder.SetBalance(address, NewU256(0))
 		accountsBuilder.SetCode(address, Bytes{})
 	}
 	for address := range nonEmptyAccounts {
-		switch rand.Intn(3) {
+		switch rnd.Intn(3) {
 		case 0:
 			accountsBuilder.SetBalance(address, NewU256(1))
 		case 1:
@@ -223,8 +239,13 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	}
 
 	// Process warm/cold constraints.
+	warm := map[tosca.Address]bool{}
 	for _, con := range g.warmCold {
 		address := getBoundOrBindNewAddress(con.key)
+		if other, found := warm[address]; found && other != con.warm {
+			return nil, fmt.Errorf("%w, address %v conflicting warm/cold constraints", ErrUnsatisfiable, address)
+		}
+		warm[address] = con.warm
 		if con.warm {
 			accountsBuilder.SetWarm(address)
 		}
@@ -234,6 +255,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 	if err := g.processBalanceConstraints(
 		getBoundOrBindNewAddress,
 		emptyAccounts,
+		nonEmptyAccounts,
 		rnd,
 		accountsBuilder,
 	); err != nil {
@@ -264,6 +286,7 @@ func (g *AccountsGenerator) Generate(assignment Assignment, rnd *rand.Rand, acco
 func (g *AccountsGenerator) processBalanceConstraints(
 	getBoundOrBindNewAddress func(v Variable) tosca.Address,
 	mustBeEmptyAccounts map[tosca.Address]struct{},
+	mustNotBeEmptyAccounts map[tosca.Address]struct{},
 	rnd *rand.Rand,
 	result *st.AccountsBuilder,
 ) error {
@@ -315,7 +338,11 @@ func (g *AccountsGenerator) processBalanceConstraints(
 			return fmt.Errorf("%w, conflicting balance constraints", ErrUnsatisfiable)
 		}
 
-		result.SetBalance(address, RandU256Between(rnd, lower, upper))
+		balance := RandU256Between(rnd, lower, upper)
+		result.SetBalance(address, balance)
+		if _, found := mustNotBeEmptyAccounts[address]; found && balance.IsZero() {
+			result.SetCode(address, NewBytes([]byte{1}))
+		}
 	}
 
 	return nil
-- 
2.43.0


From 5481e4001dfb342871a6915877c01db6a4af88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 33/46] fix: block context generator bound out-of-range
 variables to recent blocks of young chains

---
 go/ct/gen/block_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index a440a86..951cb78 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -162,7 +162,9 @@ func (b *BlockContextGenerator) bindVariablesInRangeConstraints(resultingBlockNu
 				assignment[variable] = NewU256(blockNumber)
 			} else {
 				numberOutOfRangeGenerator := NewIntervalSolver[uint64](0, math.MaxUint64)
-				numberOutOfRangeGenerator.Exclude(resultingBlockNumber-256, resultingBlockNumber-1)
+				if resultingBlockNumber > 0 {
+					numberOutOfRangeGenerator.Exclude(lowerBound, resultingBlockNumber-1)
+				}
 				number, err := numberOutOfRangeGenerator.Generate(rnd)
 				if err != nil {
 					return err
-- 
2.43.0


From 9f9ebdb6a9977ba6517fae34cbfbadca0a5ba93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:03 +0000
Subject: [PATCH 34/46] fix: transaction context generator ignored conflicting
 or excessive blob hash constraints

---
 go/ct/gen/transaction_context.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/go/ct/gen/transaction_context.go b/go/ct/gen/transaction_context.go
index 114e2d4..7039c64 100644
--- a/go/ct/gen/transaction_context.go
+++ b/go/ct/gen/transaction_context.go
@@ -22,6 +22,9 @@ import (
 	"github.com/Fantom-foundation/Tosca/go/tosca"
 )
 
+// maxNumberOfBlobHashes limits the number of blob hashes of generated transactions.
+const maxNumberOfBlobHashes = 1 << 16
+
 type TransactionContextGenerator struct {
 	unsatisfiable bool
 	// This map is used to keep track of variables that are required to have a value
@@ -38,6 +41,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		return nil, ErrUnsatisfiable
 	}
 
+	hasBoundBlobHash := false
 	maxMustHaveBlobHash := uint64(0)
 	minMustNotHaveBlobHash := uint64(math.MaxUint64)
 
@@ -48,6 +52,7 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 				if !assignedValue.IsUint64() {
 					return nil, ErrUnsatisfiable
 				}
+				hasBoundBlobHash = true
 				if assignedValue.Uint64() > maxMustHaveBlobHash {
 					maxMustHaveBlobHash = assignedValue.Uint64()
 				}
@@ -59,8 +64,10 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 		}
 	}
 
-	if maxMustHaveBlobHash > minMustNotHaveBlobHash ||
-		maxMustHaveBlobHash == math.MaxUint64 {
+	// An index of a blob hash can not be out of range at the same time, and
+	// the list of blob hashes has to be of a reasonable size.
+	if (hasBoundBlobHash && maxMustHaveBlobHash >= minMustNotHaveBlobHash) ||
+		maxMustHaveBlobHash >= maxNumberOfBlobHashes {
 		return nil, ErrUnsatisfiable
 	}
 
@@ -71,6 +78,9 @@ func (t *TransactionContextGenerator) Generate(assignment Assignment, rnd *rand.
 	for variable, hasBlobHash := range t.blobHashVariables {
 		// the bounded variables are dealt with above
 		if _, isBound := assignment[variable]; !isBound {
+			if hasBlobHash && blobHashesCount == 0 {
+				return nil, ErrUnsatisfiable
+			}
 			newValueRangeSolver := NewRangeSolver(0, blobHashesCount-1)
 			if !hasBlobHash {
 				newValueRangeSolver = NewRangeSolver(blobHashesCount, math.MaxUint64)
-- 
2.43.0


From a53b702f75bab4adf627b0af6ed8fbe72a9093ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 35/46] fix: storage generator overwrote constrained entries by
 random ones

---
 go/ct/gen/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/ct/gen/storage.go b/go/ct/gen/storage.go
index 70d0564..53f3d9a 100644
--- a/go/ct/gen/storage.go
+++ b/go/ct/gen/storage.go
@@ -154,6 +154,7 @@ func (g *StorageGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.
 			key = getUnusedKey()
 			assignment[v] = key // update assignment
 		}
+		keysInUse[key] = true
 		return key
 	}
 	randValueButNot := func(exclusive ...U256) U256 {
-- 
2.43.0


From 483b1a0ab8e9905b3a513ddc856cc3ecab75ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:48 +0000
Subject: [PATCH 36/46] fix: satisfiable constraints on bound variables were
 reported as unsatisfiable

Codes were too short for positions required to be code or data, and the
current block was considered to be one of the most recent 256 blocks.
---
 go/ct/gen/block_context.go |  2 +-
 go/ct/gen/code.go          | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/go/ct/gen/block_context.go b/go/ct/gen/block_context.go
index 951cb78..4303835 100644
--- a/go/ct/gen/block_context.go
+++ b/go/ct/gen/block_context.go
@@ -425,5 +425,5 @@ func addWithOverflowCheck(a, b uint64) (result uint64, hasOverflown bool) {
 
 func isInRange(lowerBound uint64, currentValue U256, upperBound uint64) bool {
 	value := currentValue.Uint64()
-	return currentValue.IsUint64() && lowerBound <= value && value <= upperBound
+	return currentValue.IsUint64() && lowerBound <= value && value < upperBound
 }
diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index 17e4546..cce5f8e 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -139,6 +139,20 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 		minSize = 2
 	}
 
+	// If code or data is required at a fixed position, the code has to cover it.
+	fixed := make([]Variable, 0, len(g.varIsCodeConstraints)+len(g.varIsDataConstraints))
+	for _, cur := range g.varIsCodeConstraints {
+		fixed = append(fixed, cur.variable)
+	}
+	for _, cur := range g.varIsDataConstraints {
+		fixed = append(fixed, cur.variable)
+	}
+	for _, variable := range fixed {
+		if pos, found := assignment[variable]; found && pos.Lt(NewU256(st.MaxCodeSize)) {
+			minSize = max(minSize, int(pos.Uint64())+1)
+		}
+	}
+
 	var size int
 	if g.codeSize != nil {
 		if *g.codeSize < minSize {
-- 
2.43.0


From 681a74219797055635919e680897782f36ecbd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 37/46] fix: test values of block number ranges clashed with
 those of the parameter compared

---
 go/ct/rlz/conditions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index 013bb82..38a19cb 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -935,7 +935,7 @@ func (c *inRange256FromCurrentBlock) GetTestValues() []TestValue {
 }
 
 func (c *inRange256FromCurrentBlock) String() string {
-	return c.blockNumber.String()
+	return fmt.Sprintf("inRange256FromCurrentBlock(%v)", c.blockNumber)
 }
 
 ////////////////////////////////////////////////////////////
@@ -965,7 +965,7 @@ func (c *outOfRange256FromCurrentBlock) GetTestValues() []TestValue {
 }
 
 func (c *outOfRange256FromCurrentBlock) String() string {
-	return c.blockNumber.String()
+	return fmt.Sprintf("outOfRange256FromCurrentBlock(%v)", c.blockNumber)
 }
 
 ////////////////////////////////////////////////////////////
-- 
2.43.0


From 9dc90ee81a899df13e7010abbc4b20d9464e8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 38/46] fix: test values of warm accounts and warm storage keys
 replaced each other

---
 go/ct/rlz/conditions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/ct/rlz/conditions.go b/go/ct/rlz/conditions.go
index 38a19cb..0f43959 100644
--- a/go/ct/rlz/conditions.go
+++ b/go/ct/rlz/conditions.go
@@ -766,7 +766,7 @@ func (c *isAddressWarm) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressWarm) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("account warm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, true, restrictAccountWarmCold(c.key)),
 	}
@@ -799,7 +799,7 @@ func (c *isAddressCold) Restrict(generator *gen.StateGenerator) {
 }
 
 func (c *isAddressCold) GetTestValues() []TestValue {
-	property := Property(fmt.Sprintf("warm(%v)", c.key))
+	property := Property(fmt.Sprintf("account warm(%v)", c.key))
 	return []TestValue{
 		NewTestValue(property, boolDomain{}, false, restrictAccountWarmCold(c.key)),
 	}
-- 
2.43.0


From 2daa0d75242b279069f9f65988f3d5898fa31886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 39/46] fix: rules for unknown revisions and program counters
 on data contradicted each other

---
 go/ct/spc/specification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/spc/specification.go b/go/ct/spc/specification.go
index 338ab0b..1849e06 100644
--- a/go/ct/spc/specification.go
+++ b/go/ct/spc/specification.go
@@ -87,7 +87,7 @@ func getAllRules() []Rule {
 
 		{
 			Name:      "pc_on_data_is_ignored",
-			Condition: IsData(Pc()),
+			Condition: And(AnyKnownRevision(), IsData(Pc())),
 			Effect:    NoEffect(),
 		},
 	}...)
-- 
2.43.0


From 61c087a6fb524fe88455bbf7dc3f62d0028a0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 40/46] fix: storage comparison distinguished missing and zero
 original values

---
 go/ct/st/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/storage.go b/go/ct/st/storage.go
index 650c71e..5c98787 100644
--- a/go/ct/st/storage.go
+++ b/go/ct/st/storage.go
@@ -157,7 +157,7 @@ func mapEqualIgnoringZeroValues[K comparable](a map[K]U256, b map[K]U256) bool {
 
 func (a *Storage) Eq(b *Storage) bool {
 	return mapEqualIgnoringZeroValues(a.current, b.current) &&
-		maps.Equal(a.original, b.original) &&
+		mapEqualIgnoringZeroValues(a.original, b.original) &&
 		maps.Equal(a.warm, b.warm)
 }
 
-- 
2.43.0


From 636b8f6d1d6ed4a485782ed17859feb7f9e02bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:31 +0000
Subject: [PATCH 41/46] fix: make generated code long enough for operations at
 adjacent positions

The minimal code size was only raised for positions beyond the current
minimum, leaving the code one byte short for an operation directly
following the ones covered so far.
---
 go/ct/gen/code.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/go/ct/gen/code.go b/go/ct/gen/code.go
index cce5f8e..a81f03d 100644
--- a/go/ct/gen/code.go
+++ b/go/ct/gen/code.go
@@ -102,9 +102,7 @@ func (g *CodeGenerator) Generate(assignment Assignment, rnd *rand.Rand) (*st.Cod
 	// Pick a random size that is large enough for all const constraints.
 	minSize := 0
 	for _, constraint := range ops {
-		if constraint.pos > minSize {
-			minSize = constraint.pos + 1
-		}
+		minSize = max(minSize, constraint.pos+1)
 	}
 
 	// Make extra space for worst-case size requirements of variable operation
-- 
2.43.0


From d7483e2261380c7f6992f978e0cadce194e19a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:46 +0000
Subject: [PATCH 42/46] fix: geth adapter: consider all address bytes when
 identifying precompiled contracts

Addresses like 0x..0101 were taken for precompiled contracts, and calls of
contracts at such addresses lost the read-only mode of their caller.
---
 go/geth_adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 689c281..08e2d14 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -616,7 +616,7 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 
 func isPrecompiledContract(recipient tosca.Address) bool {
 	// the addresses 1-9 are precompiled contracts
-	for i := 0; i < 18; i++ {
+	for i := 0; i < 19; i++ {
 		if recipient[i] != 0 {
 			return false
 		}
-- 
2.43.0


From 77206d73e73a439b44449f85c5670b488f29e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:46 +0000
Subject: [PATCH 43/46] fix: geth adapter: report failing precompiled contracts
 as unsuccessful calls

Errors reported by precompiled contracts for invalid inputs were forwarded
as internal errors, aborting the calling contract.
---
 go/geth_adapter/adapter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 08e2d14..a4f5f52 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -308,7 +308,13 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 
 	// revert errors are not an error in Tosca
 	if err != nil && err != geth.ErrExecutionReverted {
-		return gethToVMErrors(err, parameter.Gas)
+		result, err := gethToVMErrors(err, parameter.Gas)
+		if err != nil && isPrecompiledContract(tosca.Address(toAddr)) {
+			// Precompiled contracts report errors of their own for invalid
+			// inputs. Those are unsuccessful executions consuming all gas.
+			return tosca.CallResult{Success: false}, nil
+		}
+		return result, err
 	}
 
 	return tosca.CallResult{
-- 
2.43.0


From 932d1f03e76b05a4495847d227efbdb0d3332f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:23 +0000
Subject: [PATCH 44/46] fix: geth: credit the balance of self-destructed
 accounts only once

The balance of a self-destructing account was added to its beneficiary
and then transferred to it again by the context, creating tokens.
---
 go/interpreter/geth/geth.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/interpreter/geth/geth.go b/go/interpreter/geth/geth.go
index c9779d8..c0b9827 100644
--- a/go/interpreter/geth/geth.go
+++ b/go/interpreter/geth/geth.go
@@ -329,6 +329,10 @@ func (s *stateDbAdapter) SetTransientState(addr common.Address, key, value commo
 }
 
 func (s *stateDbAdapter) SelfDestruct(addr common.Address) {
+	// The caller has already added the balance to the beneficiary and expects this
+	// function to clear it. Since the context would transfer the remaining balance
+	// to the beneficiary once more, it is cleared here.
+	s.context.SetBalance(tosca.Address(addr), tosca.Value{})
 	s.context.SelfDestruct(tosca.Address(addr), s.lastBeneficiary)
 }
 
-- 
2.43.0


From cfb13b1a6d5d93e6e566a215ad2e47082ceda660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:10 +0000
Subject: [PATCH 45/46] fix: opera: reject transactions whose gas costs exceed
 256 bits

The product of gas limit and gas price was computed modulo 2^256, such
that senders unable to pay the costs of a transaction got it accepted.
---
 go/processor/opera/processor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index 3a506ae..b434b4d 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -331,8 +331,10 @@ func preCheck(transaction tosca.Transaction, state tosca.WorldState) error {
 func buyGas(tx tosca.Transaction, state tosca.WorldState) error {
 	// TODO: support arithmetic operations with Value type
 	gasPrice := tx.GasPrice.ToUint256()
-	mgval := uint256.NewInt(uint64(tx.GasLimit))
-	mgval = mgval.Mul(mgval, gasPrice)
+	mgval, overflow := new(uint256.Int).MulOverflow(uint256.NewInt(uint64(tx.GasLimit)), gasPrice)
+	if overflow {
+		return fmt.Errorf("%w: address %v required balance exceeds 256 bits", errInsufficientFunds, tx.Sender)
+	}
 	// Note: Opera doesn't need to check against gasFeeCap instead of gasPrice, as it's too aggressive in the asynchronous environment
 	balance := state.GetBalance(tx.Sender)
 	if have, want := balance.ToUint256(), mgval; have.Cmp(want) < 0 {
-- 
2.43.0


From a0b0e33871575ba509d5691c80cfcdc2a3cc21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:34 +0000
Subject: [PATCH 46/46] fix: geth adapter: handle the point evaluation contract
 like other precompiled contracts

In Cancun, calls of the precompiled contract at address 10 in read-only mode
passed on the gas including the marker of that mode, and its failure was
reported as an internal error.
---
 go/geth_adapter/adapter.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index a4f5f52..80df0fa 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -270,7 +270,8 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 		defer func() { debugCallEnd(result, reserr) }()
 	}
 
-	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, a.readOnly)
+	isPrecompiled := isPrecompiledContract(parameter.CodeAddress) || a.isPointEvaluationContract(parameter.CodeAddress)
+	gas := encodeReadOnlyInGas(uint64(parameter.Gas), parameter.CodeAddress, a.readOnly && !isPrecompiled)
 
 	// Documentation of the parameters can be found here: t.ly/yhxC
 	toAddr := gc.Address(parameter.Recipient)
@@ -309,7 +310,7 @@ func (a *runContextAdapter) Call(kind tosca.CallKind, parameter tosca.CallParame
 	// revert errors are not an error in Tosca
 	if err != nil && err != geth.ErrExecutionReverted {
 		result, err := gethToVMErrors(err, parameter.Gas)
-		if err != nil && isPrecompiledContract(tosca.Address(toAddr)) {
+		if err != nil && isPrecompiled {
 			// Precompiled contracts report errors of their own for invalid
 			// inputs. Those are unsuccessful executions consuming all gas.
 			return tosca.CallResult{Success: false}, nil
@@ -346,6 +347,16 @@ func encodeReadOnlyInGas(gas uint64, recipient tosca.Address, readOnly bool) uin
 	return gas
 }
 
+// isPointEvaluationContract returns true if the given address is the one of the
+// precompiled contract at address 10 which got introduced by the Cancun revision.
+func (a *runContextAdapter) isPointEvaluationContract(recipient tosca.Address) bool {
+	if recipient != (tosca.Address{19: 10}) {
+		return false
+	}
+	context := &a.evm.Context
+	return a.evm.ChainConfig().Rules(context.BlockNumber, context.Random != nil, context.Time).IsCancun
+}
+
 func decodeReadOnlyFromGas(depth int, readOnly bool, gas uint64) (bool, uint64) {
 	if depth > 0 {
 		readOnly = readOnly || gas >= (1<<63)
-- 
2.43.0

