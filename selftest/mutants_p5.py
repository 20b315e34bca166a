"""P05: block numbers are indexes modulo 65536."""
B = "src/block_mapper.rs"
OUT = "        if index > u16::MAX as u64 {\n            let part = index / (u16::MAX as u64 + 1);\n            return (index - (part * (u16::MAX as u64 + 1))) as u16;\n        }\n        index as u16\n"
TAIL = "        let mut index = (current_block * u16::MAX as u64) + block as u64;\n        if current_block > 0 {\n            index += current_block;\n        }\n        index\n"
BACK = "return (next_block * u16::MAX as u64) + block as u64 + next_block;"
MUTANTS = [
    ("p05-rem-max", ["P05"], [(B, OUT, "        (index % u16::MAX as u64) as u16\n")]),
    ("p05-part-max", ["P05"], [(B, "index / (u16::MAX as u64 + 1);\n            return (index - (part * (u16::MAX as u64 + 1)))", "index / (u16::MAX as u64 + 1);\n            return (index - (part * (u16::MAX as u64)))")]),
    ("p05-saturate", ["P05"], [(B, OUT, "        index.min(u16::MAX as u64) as u16\n")]),
    ("p05-no-round", ["P05"], [(B, BACK, "return (next_block * u16::MAX as u64) + block as u64;")]),
    ("p05-round-one", ["P05"], [(B, "if current_block > 0 {\n", "if current_block > 1 {\n")]),
    ("p05-add-one", ["P05"], [(B, "            index += current_block;\n", "            index += 1;\n")]),
    ("p05-current-in-back", ["P05"], [(B, BACK, "return (next_block * u16::MAX as u64) + block as u64 + self.current_block_set;")]),
    ("q-p05-cast", [], [(B, OUT, "        index as u16\n")]),
    ("q-p05-mask", [], [(B, OUT, "        (index & 0xffff) as u16\n")]),
    ("q-p05-rem", [], [(B, OUT, "        (index % (u16::MAX as u64 + 1)) as u16\n")]),
    ("q-p05-shift", [], [(B, TAIL, "        (current_block << 16) + u64::from(block)\n")]),
    ("q-p05-or", [], [(B, TAIL, "        (current_block << 16) | u64::from(block)\n")]),
    ("q-p05-always", [], [(B, TAIL, "        current_block * u16::MAX as u64 + block as u64 + current_block\n")]),
    ("q-p05-helper", [], [(B, TAIL, "        Self::absolute(current_block, block)\n"), (B, BACK, "return Self::absolute(next_block, block);"), (B, "    // block index\n", "    fn absolute(round: u64, block: u16) -> u64 {\n        round * (u16::MAX as u64 + 1) + block as u64\n    }\n\n    // block index\n")]),
    ("q-p05-match", [], [(B, "            if block < 10000 {\n                let next_block = self.next_block_set - 1;\n                return (next_block * u16::MAX as u64) + block as u64 + next_block;\n            } else if (10000..20000).contains(&block) {\n                self.current_block_set += 1;\n            }\n",
      "            match block {\n                0..=9999 => {\n                    let next_block = self.next_block_set - 1;\n                    return (next_block * u16::MAX as u64) + block as u64 + next_block;\n                }\n                10000..=19999 => self.current_block_set += 1,\n                _ => (),\n            }\n")]),
]
