IO = "std-binary/src/io.rs"
VAL = "src/server/validation.rs"
MUTANTS = [
    ("f01-str-prefix", ["F01"], [(IO, "        if p.starts_with(&d) {\n            return if list_dir", "        if p.to_string_lossy().starts_with(&*d.to_string_lossy()) {\n            return if list_dir")]),
    ("f01-no-canon", ["F01"], [(IO, "_ => (canonicalize(path), false)", "_ => (Ok(path), false)")]),
    ("f01-list-raw", ["F01"], [(IO, "list_directory(&d, &p).map", "list_directory(&d, d.join(requested_path.as_str()).parent().unwrap()).map")]),
    ("f01-or", ["F01"], [(IO, "        if p.starts_with(&d) {\n            return if list_dir", "        if list_dir || p.starts_with(&d) {\n            return if list_dir")]),
    ("f01-create-missing", ["F01"], [(IO, "let file = match StdFile::open(path.as_str())", "let file = match StdFile::options().read(true).write(true).create(true).open(path.as_str())")]),
    ("f02-truncate-early", ["F02"], [(IO, "        options.write(true).create(true);\n", "        options.write(true).create(true).truncate(true);\n")]),
    ("f02-skip-check-existing", ["F02"], [(IO, "if p.starts_with(d) {", "if !config.allow_overwrite || p.starts_with(d) || p.exists() {")]),
    ("f02-early-return", ["F02"], [(IO, "        options.write(true).create_new(true);\n        options.open(&path).map_err(from_io_err)?\n", "        options.write(true).create_new(true);\n        return Ok(options.open(&path).map_err(from_io_err)?.into());\n")]),
    ("f02-open-raw", ["F02"], [(IO, "let file = options.open(&p).map_err(from_io_err)?;", "let file = options.open(dir2.join(requested_path.as_str())).map_err(from_io_err)?;"), (IO, "    let real_dir = canonicalize(dir);\n    let real_path = canonicalize(path);\n    if let (Ok(d), Ok(p)) = (real_dir, real_path) {\n        if p.starts_with(d)", "    let dir2 = dir.clone();\n    let real_dir = canonicalize(dir);\n    let real_path = canonicalize(path);\n    if let (Ok(d), Ok(p)) = (real_dir, real_path) {\n        if p.starts_with(d)")]),
    ("f03-create", ["F03"], [(IO, "options.write(true).create_new(true);", "options.write(true).create(true);")]),
    ("f03-inverted", ["F03"], [(IO, "let file = if config.allow_overwrite {", "let file = if config.allow_overwrite || path.is_file() {")]),
    ("f03-truncate-always", ["F03"], [(IO, "            if config.allow_overwrite {\n                drop(file);", "            if config.allow_overwrite || p.metadata().map(|m| m.len() == 0).unwrap_or(false) {\n                drop(file);")]),
    ("f03-remove", ["F03"], [(IO, "        options.write(true).create_new(true);\n", "        let _ = std::fs::remove_file(&path);\n        options.write(true).create_new(true);\n")]),
    ("f04-writer", ["F04"], [(IO, "pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) -> BoxedResult<File> {\n    validate_path(requested_path, config.max_directory_depth as usize)?;", "pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) -> BoxedResult<File> {\n    let _ = validate_path(requested_path, config.max_directory_depth as usize);")]),
    ("f04-off", ["F04"], [(IO, "component_count.saturating_sub(1) <= max_depth", "component_count.saturating_sub(2) <= max_depth")]),
    ("f05-parent", ["F05"], [(VAL, '"." | ".." | "/" | ""', '"." | "/" | ""')]),
    ("f05-raw-reader", ["F05"], [("src/server/connection_builder.rs", "create_reader(&file_path, self.config)", "create_reader(&file_name, self.config)")]),
    ("f05-startonly", ["F05"], [(VAL, """        .filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))
        .fold(""", """        .skip_while(|c| matches!(c.trim(), "." | ".." | "/" | ""))
        .fold(""")]),
    # behaviour kept
    ("q-f-loop", [], [(VAL, """    let result = file_path
        .as_str()
        .trim_start_matches('/')
        .split('/')
        .filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))
        .fold(FilePath::new(), |mut f, c| {
            if !f.as_str().is_empty() {
                f.push('/');
            }
            f.push_str(c);
            f
        });
""", """    let mut result = FilePath::new();
    for c in file_path.as_str().trim_start_matches('/').split('/') {
        let t = c.trim();
        if t == "." || t == ".." || t == "/" || t.is_empty() {
            continue;
        }
        if !result.as_str().is_empty() {
            result.push('/');
        }
        result.push_str(c);
    }
""")]),
    ("q-f-helper", [], [(IO, "            return if list_dir {\n                list_directory(&d, &p).map(|(s, l)| (s, ReaderCreator::from_list(l)))\n            } else {\n                let file_path = p\n                    .to_str()\n                    .and_then(|s| s.parse().ok())\n                    .ok_or(FileError::InvalidFileName)?;\n                create_reader(&file_path).map(|(s, f)| (s, ReaderCreator::from_file(f)))\n            };", "            if list_dir {\n                return list_directory(&d, &p).map(|(s, l)| (s, ReaderCreator::from_list(l)));\n            }\n            return open_real(&p);"), (IO, "struct ReaderCreator {}", "fn open_real(p: &Path) -> BoxedResult<(Option<u64>, BoxedReader)> {\n    let Some(s) = p.to_str() else { return Err(FileError::InvalidFileName.into()) };\n    let Ok(file_path) = s.parse::<FilePath>() else { return Err(FileError::InvalidFileName.into()) };\n    let (s, f) = create_reader(&file_path)?;\n    Ok((s, ReaderCreator::from_file(f)))\n}\n\nstruct ReaderCreator {}")]),
    ("q-f-depth-loop", [], [(IO, """    let component_count = Path::new(requested_path.as_str())
        .components()
        .filter(|c| {
            matches!(
                c,
                Component::Normal(_) | Component::ParentDir | Component::CurDir
            )
        })
        .count();
    if component_count.saturating_sub(1) <= max_depth {
        return Ok(());
    }
    Err(FileError::InvalidFileName)
""", """    let mut component_count: usize = 0;
    for c in Path::new(requested_path.as_str()).components() {
        match c {
            Component::Normal(_) | Component::ParentDir | Component::CurDir => component_count += 1,
            _ => {}
        }
    }
    if component_count > max_depth + 1 {
        return Err(FileError::InvalidFileName);
    }
    Ok(())
""")]),
    ("q-f-writer-flat", [], [(IO, """    let file = if config.allow_overwrite {
        let mut options = OpenOptions::new();
        // while path is not resolved do not truncate, but create if it does not exist
        options.write(true).create(true);
        options.open(&path).map_err(from_io_err)?
    } else {
        let mut options = OpenOptions::new();
        options.write(true).create_new(true);
        options.open(&path).map_err(from_io_err)?
    };
""", """    let overwrite = config.allow_overwrite;
    let file = OpenOptions::new()
        .write(true)
        .create(overwrite)
        .create_new(!overwrite)
        .open(&path)
        .map_err(from_io_err)?;
"""), (IO, """        if p.starts_with(d) {
            if config.allow_overwrite {
                drop(file);
                let mut options = OpenOptions::new();
                options.write(true).create(true).truncate(true);
                let file = options.open(&p).map_err(from_io_err)?;
                return Ok(file.into());
            }
            return Ok(file.into());
        }
""", """        if !p.starts_with(&d) {
            return Err(FileError::InvalidFileName.into());
        }
        if !overwrite {
            return Ok(file.into());
        }
        drop(file);
        let file = OpenOptions::new().write(true).create(true).truncate(true).open(p).map_err(from_io_err)?;
        return Ok(file.into());
""")]),
]
