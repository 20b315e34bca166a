"""R07, R08: release and end of the block readers."""
S1 = "src/readers/single_block_reader.rs"
M = "src/readers/multiple_block_reader.rs"
K = "src/readers/multiple_block_seek_reader.rs"
LOOP = """        let blocks_to_remove = self.blocks.iter_mut().filter(|b| {
            if let Some(bindex) = b.index {
                bindex <= index
            } else {
                false
            }
        });
        let mut size = 0;
        let mut last_block_removed = None;
        for block_to_remove in blocks_to_remove {
            last_block_removed = max(last_block_removed, block_to_remove.index);
            block_to_remove.index = None;
            size += block_to_remove.data.len();
        }
"""
SEEK = """        let mut index = self.block_mapper.index(block);
        let mut size: usize = 0;
        if index > self.block_read_confirmed {
            if index > self.block_read {
                index = self.block_read;
            }
"""
FIN = "self.blocks.iter().filter(|b| b.index.is_some()).count() == 0 && self.finished"
MUTANTS = [
    ("r07-single-any", ["R07"], [(S1, "self.block_read != self.block_mapper.index(block)", "self.block_read < self.block_mapper.index(block)")]),
    ("r07-single-low", ["R07"], [(S1, "self.block_read != self.block_mapper.index(block)", "self.block_read as u8 != self.block_mapper.index(block) as u8")]),
    ("r07-single-lt", ["R07"], [(S1, "self.block_read != self.block_mapper.index(block)", "self.block_read > self.block_mapper.index(block)")]),
    ("r07-multi-plus", ["R07"], [(M, "bindex <= index\n", "bindex <= index + 1\n")]),
    ("r07-multi-all", ["R07"], [(M, "bindex <= index\n", "bindex <= index || index > self.block_read\n".replace("self.block_read", "block as u64"))]),
    ("r07-multi-wrap", ["R07"], [(M, "bindex <= index\n", "self.block_mapper.block(bindex) <= block\n")]),
    ("r07-multi-u16", ["R07"], [(M, "bindex <= index\n", "bindex as u16 <= index as u16\n")]),
    ("r07-multi-else", ["R07"], [(M, "                bindex <= index\n            } else {\n                false", "                bindex <= index || bindex < 2\n            } else {\n                false")]),
    ("r07-seek-noclamp", ["R07"], [(K, "            if index > self.block_read {\n                index = self.block_read;\n            }\n", "")]),
    ("r07-seek-back", ["R07"], [(K, "        if index > self.block_read_confirmed {\n            if index", "        if index != self.block_read_confirmed {\n            if index")]),
    ("r07-seek-all", ["R07"], [(K, "            self.block_read_confirmed = index;\n", "            self.block_read_confirmed = self.block_read;\n")]),
    ("r07-seek-max", ["R07"], [(K, "            if index > self.block_read {\n                index = self.block_read;\n            }\n", "            index = index.max(self.block_read);\n")]),
    ("q-r07-seek-min", [], [(K, "            if index > self.block_read {\n                index = self.block_read;\n            }\n", "            index = index.min(self.block_read);\n")]),
    ("q-r07-seek-early", [], [(K, SEEK, """        let index = self.block_mapper.index(block).min(self.block_read);
        let mut size: usize = 0;
        if self.block_read_confirmed < index {
""")]),
    ("q-r07-single-eq", [], [(S1, "        if self.block_read != self.block_mapper.index(block) {\n            return 0;\n        }\n        self.last_block_size.take().unwrap_or(0) as usize\n", "        let index = self.block_mapper.index(block);\n        if index == self.block_read {\n            let size = self.last_block_size.unwrap_or_default();\n            self.last_block_size = None;\n            size as usize\n        } else {\n            0\n        }\n")]),
    ("q-r07-multi-issome", [], [(M, "            if let Some(bindex) = b.index {\n                bindex <= index\n            } else {\n                false\n            }\n", "            b.index.is_some_and(|i| i <= index)\n")]),
    ("q-r07-multi-mapor", [], [(M, "            if let Some(bindex) = b.index {\n                bindex <= index\n            } else {\n                false\n            }\n", "            b.index.map_or(false, |i| index >= i)\n")]),
    ("q-r07-multi-match", [], [(M, "            if let Some(bindex) = b.index {\n                bindex <= index\n            } else {\n                false\n            }\n", "            matches!(b.index, Some(i) if i <= index)\n")]),
    ("q-r07-multi-lt", [], [(M, "bindex <= index\n", "bindex < index + 1\n")]),
    ("q-r07-multi-loop", [], [(M, LOOP, """        let mut size = 0;
        let mut last_block_removed = None;
        for buffer in self.blocks.iter_mut() {
            let Some(bindex) = buffer.index else {
                continue;
            };
            if bindex > index {
                continue;
            }
            last_block_removed = max(last_block_removed, buffer.index);
            buffer.index = None;
            size += buffer.data.len();
        }
""")]),
    ("q-r07-multi-take", [], [(M, LOOP, """        let mut size = 0;
        let mut last_block_removed = None;
        for buffer in self.blocks.iter_mut() {
            match buffer.index {
                Some(bindex) if bindex <= index => {
                    last_block_removed = max(last_block_removed, buffer.index.take());
                    size += buffer.data.len();
                }
                _ => (),
            }
        }
""")]),
    ("r07-multi-loop", ["R07"], [(M, LOOP, """        let mut size = 0;
        let mut last_block_removed = None;
        for buffer in self.blocks.iter_mut() {
            let Some(bindex) = buffer.index else {
                continue;
            };
            if bindex > index && bindex > self.block_read {
                continue;
            }
            last_block_removed = max(last_block_removed, buffer.index);
            buffer.index = None;
            size += buffer.data.len();
        }
""")]),
    ("q-r07-multi-helper", [], [(M, LOOP, """        let mut size = 0;
        let mut last_block_removed = None;
        for buffer in self.blocks.iter_mut() {
            if let Some(removed) = buffer.release(index) {
                last_block_removed = max(last_block_removed, Some(removed));
                size += buffer.data.len();
            }
        }
"""), (M, "    index: Option<u64>,\n}\n", "    index: Option<u64>,\n}\n\nimpl Buffer {\n    fn release(&mut self, upto: u64) -> Option<u64> {\n        let index = self.index?;\n        if index > upto {\n            return None;\n        }\n        self.index = None;\n        Some(index)\n    }\n}\n")]),
    ("r08-no-count", ["R08"], [(M, FIN, "self.finished")]),
    ("r08-index-none", ["R08"], [(M, FIN, "self.blocks.iter().filter(|b| b.index.is_none()).count() == 0 && self.finished")]),
    ("r08-below", ["R08"], [(M, FIN, "self.blocks.iter().filter(|b| b.index < Some(self.block_read)).count() == 0 && self.finished")]),
    ("r08-one", ["R08"], [(M, FIN, "self.blocks.iter().filter(|b| b.index.is_some()).count() <= 1 && self.finished")]),
    ("r08-any", ["R08"], [(M, FIN, "self.blocks.iter().any(|b| b.index.is_none()) && self.finished")]),
    ("r08-all-any", ["R08"], [(M, FIN, "self.finished && !self.blocks.iter().all(|b| b.index.is_some())")]),
    ("r08-single-or", ["R08"], [(S1, "self.last_block_size.is_none() && self.finished", "self.last_block_size.is_none() && (self.finished || self.block_read > 65535)")]),
    ("r08-single-zero", ["R08"], [(S1, "self.last_block_size.is_none() && self.finished", "self.last_block_size.unwrap_or(0) == 0 && self.finished")]),
    ("r08-seek-zero", ["R08"], [(K, "self.block_read == self.block_read_confirmed && self.finished_block_size.is_some()", "self.finished_block_size == Some(0) || self.block_read == self.block_read_confirmed && self.finished_block_size.is_some()")]),
    ("r08-seek-current", ["R08"], [(K, "self.block_read == self.block_read_confirmed && self.finished_block_size.is_some()", "self.block_read == self.current_block && self.finished_block_size.is_some()")]),
    ("q-r08-any", [], [(M, FIN, "self.finished && !self.blocks.iter().any(|b| b.index.is_some())")]),
    ("q-r08-all", [], [(M, FIN, "self.finished && self.blocks.iter().all(|b| b.index.is_none())")]),
    ("q-r08-loop", [], [(M, FIN, "if !self.finished {\n            return false;\n        }\n        let kept = self.blocks.iter().filter(|b| b.index.is_some()).count();\n        kept < 1")]),
    ("q-r08-match", [], [(S1, "self.last_block_size.is_none() && self.finished", "match self.last_block_size {\n            None => self.finished,\n            Some(_) => false,\n        }")]),
    ("q-r08-seek-ge", [], [(K, "self.block_read == self.block_read_confirmed && self.finished_block_size.is_some()", "self.finished_block_size.is_some() && self.block_read_confirmed >= self.block_read")]),
]
