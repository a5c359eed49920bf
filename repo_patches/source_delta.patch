From 5fc0beccd80ca5257df4084db566eaa7b16d4183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 01/16] fix: evaluating keeps the value of an output that also
 feeds other gates

---
 src/evaluator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..7a866e5 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -38,13 +38,18 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut num_depend_map = HashMap::<GateId, usize>::new();
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
+        // Being an output counts as a dependent, so that the value is kept until it is read.
+        for i in 0..output_len {
+            let output_gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            *num_depend_map.entry(output_gate_id).or_insert(0) += 1;
+        }
         assert_eq!(inputs.len(), circuit.input_len());
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
                 Some(id) => {
                     evaled_map.insert(id, inputs[i]);
-                    num_depend_map.insert(id, circuit.get_depended_gates(&id)?.len());
+                    *num_depend_map.entry(id).or_insert(0) += circuit.get_depended_gates(&id)?.len();
                     i += 1;
                 }
                 None => {}
@@ -119,7 +124,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +143,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +173,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +203,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +233,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +265,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From 451151768a3f31c244ada94c6961f2e7c270185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 02/16] fix: evaluating with a wrong number of inputs returns
 an error instead of panicking

---
 src/evaluator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 7a866e5..87d20a8 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -43,7 +43,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
             let output_gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
             *num_depend_map.entry(output_gate_id).or_insert(0) += 1;
         }
-        assert_eq!(inputs.len(), circuit.input_len());
+        if inputs.len() != circuit.input_len() {
+            return Err(EvaluatorError::InvalidInputLen(
+                inputs.len(),
+                circuit.input_len(),
+            ));
+        }
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
-- 
2.43.0


From b3540a892b7559bf24f5867706f18cfa67909dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 03/16] fix: instantiating a module whose outputs are its
 inputs no longer underflows the wire count

---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..e133fc7 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The module's outputs are among its wires, or are its inputs.
+        self.num_wire -= output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From 98cbf2b744bf29e4d185a1a2d1990fc488f4aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 04/16] fix: written documents have exact counts, all constants
 and their outputs last, on every write

---
 src/bristol_converter.rs | 60 +++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..a3287d6 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -197,22 +197,8 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
@@ -220,6 +206,8 @@ impl<W: Write> BristolNXAOWriter<W> {
             None => &mut new_wire_of_gate,
         };
         let mut const_of_wire = HashMap::new();
+        // The header needs the number of gate lines, so these are put together first.
+        let mut body = BristolNXAOWriter::new(self.c_ref.clone(), BufWriter::new(Vec::<u8>::new()));
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
         while i < input_len {
@@ -227,20 +215,54 @@ impl<W: Write> BristolNXAOWriter<W> {
             match gate_id {
                 Some(id) => {
                     let gate = self.c_ref.get_gate(&id)?.clone();
-                    self.write_single_gate(&id, &gate, wire_of_gate, &mut const_of_wire)?;
+                    body.write_single_gate(&id, &gate, wire_of_gate, &mut const_of_wire)?;
                     i += 1;
                 }
                 None => {}
             };
             last_input_wire_id += WireId(1);
         }
-        self.last_const_wire = input_len;
-        self.num_wire += num_const;
-        self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        body.last_const_wire = input_len;
+        body.num_wire += num_const;
+        body.write_all_gates(wire_of_gate, &mut const_of_wire)?;
         let mut const_vals = Vec::new();
-        for wire in input_len..self.last_const_wire {
+        for wire in input_len..body.last_const_wire {
             const_vals.push(const_of_wire[&wire]);
         }
+        // The constants of modules whose outputs are not used drive no gate line.
+        const_vals.resize(num_const, false);
+
+        // The outputs are the last wires of the document, in order.
+        let mut output_wires = Vec::new();
+        for i in 0..output_len {
+            let output_gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&output_gate_id]);
+        }
+        let num_wire = body.num_wire;
+        if (0..output_len).any(|i| output_wires[i] + output_len != num_wire + i) {
+            for wire in output_wires {
+                let copy_line = format!("1 1 {} {} EQW\n", wire, body.num_wire);
+                body.writer.write_all(copy_line.as_bytes())?;
+                body.num_wire += 1;
+            }
+        }
+
+        self.num_wire = body.num_wire;
+        self.last_const_wire = body.last_const_wire;
+        let num_gate = self.num_wire - num_all_input;
+        let first_line = format!("{} {}\n", num_gate, self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        let lines = body.writer.into_inner().map_err(|e| e.into_error())?;
+        self.writer.write_all(&lines)?;
         Ok(const_vals)
     }
 
-- 
2.43.0


From 86243ddb889a5ccc78eed9ace828f4e83a97d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 05/16] fix: a stream error on the fourth line fails the load

---
 src/bristol_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index a3287d6..1e04f2e 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -98,7 +98,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             output_len_sum += output_bit;
         }
         //skip one row.
-        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
+        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
 
         for result in lines_iter {
             let l = result?;
-- 
2.43.0


From 32da989c9ecb585378a20ef776296307ab3405d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 06/16] fix: a loader forgets the wires of earlier documents

---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 1e04f2e..91f1744 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From 8382810e1babb5b2cfe5872925eb075f100786eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 07/16] fix: a damaged document is an error instead of a panic,
 and registers no outputs

---
 src/bristol_converter.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 91f1744..1643733 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -136,6 +136,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 output_wire_ids.push(output_wire_id);
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
+            let needed_len = match gate_type {
+                "XOR" | "AND" | "OR" => 2,
+                _ => 1,
+            };
+            if input_gates.len() < needed_len || output_wire_ids.is_empty() {
+                return Err(BristolError::LineSplitError);
+            }
 
             match gate_type {
                 "INV" => {
@@ -162,8 +169,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
+        let first_output = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::UnknownWire(num_wire))?;
+        let mut output_gates = Vec::new();
+        for i in first_output..num_wire {
+            let gate_id = self.gate_of_wire.get(&i).ok_or(BristolError::UnknownWire(i))?;
+            output_gates.push(*gate_id);
+        }
+        for gate_id in output_gates {
             c_ref.output(gate_id)?;
         }
         Ok(())
-- 
2.43.0


From 6607a44ee84d3c570eae2be83d47de0ebf1fb147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 08/16] fix: integer constants of any width that fits are
 accepted, not only whole bytes

---
 src/circuits/arithmetic/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..e5c252f 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -44,7 +44,8 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
         let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
+        let mut bits_le = bytes2bits_le(&bytes_le[..]);
+        bits_le.truncate(val.bits() as usize);
         assert!(bits_le.len() <= N);
 
         let mut val_le = Vec::new();
-- 
2.43.0


From d56a76a99f78ac8be2ec1d088592ead0fdb61d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 09/16] fix: field sums equal to the modulus are reduced to
 zero

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From 9c99588021ff0f21b4d79a7dda8ca1d3b020c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 10/16] fix: evaluate circuits that are deeper than the call
 stack

---
 src/evaluator.rs | 50 +++++++++++++++++++++++++-----------------------
 src/gates.rs     | 14 ++++++++++++++
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 87d20a8..3ccb0c2 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -122,6 +122,32 @@ impl NXAOBoolEvaluator {
         gate_id: &GateId,
         evaled_map: &mut HashMap<GateId, bool>,
         num_depend_map: &mut HashMap<GateId, usize>
+    ) -> Result<(), EvaluatorError> {
+        // The gates below are evaluated first, from an explicit stack: a circuit can be deeper than the call stack.
+        let mut pending = vec![(*gate_id, self.circuit.get_gate(gate_id)?.input_ids(), 0)];
+        while let Some((id, input_ids, next)) = pending.last_mut() {
+            match input_ids.get(*next).copied() {
+                Some(input_id) => {
+                    *next += 1;
+                    if evaled_map.get(&input_id).is_none() {
+                        pending.push((input_id, self.circuit.get_gate(&input_id)?.input_ids(), 0));
+                    }
+                }
+                None => {
+                    let id = *id;
+                    pending.pop();
+                    self.eval_evaled_inputs_gate(&id, evaled_map, num_depend_map)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
+    fn eval_evaled_inputs_gate(
+        &self,
+        gate_id: &GateId,
+        evaled_map: &mut HashMap<GateId, bool>,
+        num_depend_map: &mut HashMap<GateId, usize>
     ) -> Result<(), EvaluatorError> {
         let gate = self.circuit.get_gate(gate_id)?;
         match gate {
@@ -133,9 +159,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
-                if evaled_map.get(&gate.id).is_none() {
-                    self.eval_single_gate(&gate.id, evaled_map, num_depend_map)?;
-                }
                 let input_bit = evaled_map
                     .get(&gate.id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.id))?;
@@ -152,12 +175,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -182,12 +199,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -212,12 +223,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -245,9 +250,6 @@ impl NXAOBoolEvaluator {
                 let input_ids = &gate.input_ids;
                 let mut input_bits: Vec<bool> = Vec::new();
                 for id in input_ids {
-                    if evaled_map.get(id).is_none() {
-                        self.eval_single_gate(id, evaled_map, num_depend_map)?;
-                    }
                     let val = evaled_map
                         .get(id)
                         .ok_or(EvaluatorError::UnknownEvaledBit(*id))?;
diff --git a/src/gates.rs b/src/gates.rs
index 12f346b..d8a3c7f 100644
--- a/src/gates.rs
+++ b/src/gates.rs
@@ -133,6 +133,20 @@ impl Gate for NXAOBoolGate {
     }
 }
 
+impl NXAOBoolGate {
+    pub(crate) fn input_ids(&self) -> Vec<GateId> {
+        match self {
+            NXAOBoolGate::Input(_) => vec![],
+            NXAOBoolGate::Const(_) => vec![],
+            NXAOBoolGate::Not(g) => vec![g.id],
+            NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Module(g) => g.input_ids.to_vec(),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct InputGate {
     pub wire_id: WireId,
-- 
2.43.0


From b09175f7d4c9368969182bfe97aeb13c60f6bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 11/16] fix: write circuits that are deeper than the call stack

---
 src/bristol_converter.rs | 99 ++++++++++++----------------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 1643733..92ac8df 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -404,6 +404,34 @@ impl<W: Write> BristolNXAOWriter<W> {
         gate: &NXAOBoolGate,
         wire_of_gate: &mut HashMap<GateId, usize>,
         const_of_wire: &mut HashMap<usize, bool>,
+    ) -> Result<(), BristolError> {
+        // The gates below are written first, from an explicit stack: a circuit can be deeper than the call stack.
+        let mut pending = vec![(*gate_id, gate.clone(), gate.input_ids(), 0)];
+        while let Some((id, gate, input_ids, next)) = pending.last_mut() {
+            match input_ids.get(*next).copied() {
+                Some(input_id) => {
+                    *next += 1;
+                    if wire_of_gate.get(&input_id).is_none() {
+                        let input_gate = self.c_ref.get_gate(&input_id)?;
+                        let its_input_ids = input_gate.input_ids();
+                        pending.push((input_id, input_gate, its_input_ids, 0));
+                    }
+                }
+                None => {
+                    self.write_written_inputs_gate(id, gate, wire_of_gate, const_of_wire)?;
+                    pending.pop();
+                }
+            }
+        }
+        Ok(())
+    }
+
+    fn write_written_inputs_gate(
+        &mut self,
+        gate_id: &GateId,
+        gate: &NXAOBoolGate,
+        wire_of_gate: &mut HashMap<GateId, usize>,
+        const_of_wire: &mut HashMap<usize, bool>,
     ) -> Result<(), BristolError> {
         match gate {
             NXAOBoolGate::Input(gate) => {
@@ -411,11 +439,6 @@ impl<W: Write> BristolNXAOWriter<W> {
             }
             NXAOBoolGate::Const(_) => Ok(()),
             NXAOBoolGate::Not(gate) => {
-                if wire_of_gate.get(&gate.id).is_none() {
-                    //println!("not found id {}",gate.id);
-                    let input_gate = self.c_ref.get_gate(&gate.id)?.clone();
-                    self.write_single_gate(&gate.id, &input_gate, wire_of_gate, const_of_wire)?;
-                }
                 let input_wire = wire_of_gate[&gate.id];
                 self.update_wire(
                     gate_id,
@@ -426,26 +449,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::Xor(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -457,26 +460,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::And(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -488,26 +471,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::Or(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -521,12 +484,6 @@ impl<W: Write> BristolNXAOWriter<W> {
             NXAOBoolGate::Module(gate) => {
                 //println!("writer module id {} gate id {}",gate.module_id, gate_id);
                 let input_ids = &gate.input_ids;
-                for id in input_ids {
-                    if wire_of_gate.get(id).is_none() {
-                        let input_gate = self.c_ref.get_gate(id)?.clone();
-                        self.write_single_gate(&id, &input_gate, wire_of_gate, const_of_wire)?;
-                    }
-                }
                 let module_circuit = self.c_ref.get_module(&gate.module_id)?.clone();
                 let mut new_wire_of_gate = HashMap::new();
                 let mut last_input_wire_id = WireId(0);
-- 
2.43.0


From 1e815fc703bcb4f6e7ce90f9743261ae818bf975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 12/16] fix: EQ lines of a document assign constants instead of
 copying the wire of that number

---
 src/bristol_converter.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 92ac8df..c6298ea 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -20,6 +20,8 @@ pub enum BristolError {
     UnknownGate(GateId),
     #[error("The {0}-th output gate should be either NOT, XOR, AND, OR gate.")]
     InvalidOutputGate(WireId),
+    #[error("The constant {0} in the bristol file is neither 0 nor 1.")]
+    InvalidConst(usize),
     #[error("The gate {0} is not supported.")]
     NotSupportedGate(String),
     #[error("The constant gate of id {0} cannot be written to a bristol file.")]
@@ -115,17 +117,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -140,9 +138,28 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 "XOR" | "AND" | "OR" => 2,
                 _ => 1,
             };
-            if input_gates.len() < needed_len || output_wire_ids.is_empty() {
+            if input_wire_ids.len() < needed_len || output_wire_ids.is_empty() {
                 return Err(BristolError::LineSplitError);
             }
+            if gate_type == "EQ" {
+                // The operand is a constant, not a wire.
+                let value = match input_wire_ids[0] {
+                    0 => false,
+                    1 => true,
+                    other => return Err(BristolError::InvalidConst(other)),
+                };
+                let output_gate = c_ref.constant(value)?;
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
 
             match gate_type {
                 "INV" => {
@@ -161,7 +178,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From 4947c4c04e11c1939a2252b99337ed1f3e780239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 13/16] fix: less compares integers whose difference overflows

---
 src/circuits/arithmetic/int.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index e5c252f..8ddca85 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -482,10 +482,15 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
         b_inputs.push(sub_ref.input()?);
     }
 
-    let inputs = [a_inputs, b_inputs].concat();
+    let inputs = [&a_inputs[..], &b_inputs[..]].concat();
     let sub = sub_ref.module(&suber_mid, &inputs)?;
     let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    let is_sub_minus = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    // The sign of the difference is inverted if the difference overflows.
+    let is_sign_different = sub_ref.xor(&a_inputs[n_bits - 1], &b_inputs[n_bits - 1])?;
+    let is_sign_changed = sub_ref.xor(&a_inputs[n_bits - 1], &sub[n_bits - 1])?;
+    let is_overflow = sub_ref.and(&is_sign_different, &is_sign_changed)?;
+    let is_less = sub_ref.xor(&is_sub_minus, &is_overflow)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From d6c1d7c639033f965f46c61e536ef26f3d55ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 14/16] fix: requests that name unknown gates or give a module
 a wrong number of inputs are refused

---
 src/bool_circuit.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index e133fc7..3d9a969 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -25,6 +25,8 @@ pub enum BoolCircuitError {
     NotModuleGate(GateId),
     #[error("The input gate of id {0} is not found in the module of id {1}")]
     UnknownInputOfModule(GateId, ModuleId),
+    #[error("The module takes {0} inputs, but {1} are given.")]
+    InvalidModuleInputLen(usize, usize),
     #[error("There is no valid gate in input gates of the module.")]
     InvalidModuleInputGate,
 }
@@ -514,6 +516,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn not(&mut self, gate_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gate(gate_id)?;
         let not_gate = NotGate { id: *gate_id };
         let new_gate_id = self.add_gate(NXAOBoolGate::Not(not_gate));
         self.add_dependence(gate_id, &new_gate_id)?;
@@ -522,6 +525,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn xor(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gate(gate_l_id)?;
+        self.check_gate(gate_r_id)?;
         let xor_gate = XorGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -534,6 +539,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn and(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gate(gate_l_id)?;
+        self.check_gate(gate_r_id)?;
         let and_gate = AndGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -546,6 +553,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn or(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_gate(gate_l_id)?;
+        self.check_gate(gate_r_id)?;
         let or_gate = OrGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -593,6 +602,15 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
+        if gate_ids.len() != input_len {
+            return Err(BoolCircuitError::InvalidModuleInputLen(
+                input_len,
+                gate_ids.len(),
+            ));
+        }
+        for gate_id in gate_ids.iter() {
+            self.check_gate(gate_id)?;
+        }
         self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
@@ -681,6 +699,13 @@ impl NXAOBoolCircuit {
         }
     }
 
+    fn check_gate(&self, gate_id: &GateId) -> Result<(), BoolCircuitError> {
+        match self.gate_map.get(gate_id) {
+            Some(_) => Ok(()),
+            None => Err(BoolCircuitError::UnknownGate(*gate_id)),
+        }
+    }
+
     fn add_gate(&mut self, gate: NXAOBoolGate) -> GateId {
         let gate_id = GateId(self.gate_index as u64);
         self.gate_map.insert(gate_id, gate);
-- 
2.43.0


From e407ee66cbb781db71b2411f465e45b875704c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 15/16] fix: shifts by more than the width shift everything out

---
 src/circuits/arithmetic/int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 8ddca85..c825aef 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -132,6 +132,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = self.config.clone();
         let new_ref = &mut config.c_ref;
         let mut new_val_le = Vec::new();
+        let shift_bits = shift_bits.min(N);
         for _ in 0..shift_bits {
             new_val_le.push(new_ref.constant(false)?);
         }
@@ -149,6 +150,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let config = self.config.clone();
         let mut new_val_le = Vec::new();
         let sign_bit = self.val_le[N - 1];
+        let shift_bits = shift_bits.min(N);
         for i in 0..(N - shift_bits) {
             new_val_le.push(self.val_le[i + shift_bits]);
         }
-- 
2.43.0


From ebef461df49dd40d1b69323e25233d176b98bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 16/16] fix: bits that do not fill the last byte are packed
 instead of panicking

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index e2d6b02..da4c7b9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -7,7 +7,7 @@ pub fn bits2bytes_le(bits: &[bool]) -> Vec<u8> {
     bits.chunks(8)
         .map(|bits| {
             let mut byte: u8 = 0;
-            for i in 0..8 {
+            for i in 0..bits.len() {
                 byte += (bits[i] as u8) << i;
             }
             byte
@@ -27,7 +27,7 @@ pub fn bits2bytes_be(bits: &[bool]) -> Vec<u8> {
     bits.chunks(8)
         .map(|bits| {
             let mut byte: u8 = 0;
-            for i in 0..8 {
+            for i in 0..bits.len() {
                 byte += (bits[i] as u8) << (7 - i);
             }
             byte
-- 
2.43.0

