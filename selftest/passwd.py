"""The password tool."""
P = 'ratelmq-passwd/src/main.rs'
CHK = """    if user_name.contains(':') || user_name.contains('\\n') {
        eprintln!("User names must not contain colons or line breaks");
        std::process::exit(1);
    }
"""
FIRST = '    let regexp_format = format!'
APP = """        let mut credentials = credentials;
        if !credentials.is_empty() && !credentials.ends_with('\\n') {
            credentials.push('\\n');
        }
        Some(credentials + build_entry(user_name, password).as_str())
"""
REPL = """        let text = match delete {
            true => "".to_string(),
            false => build_entry(user_name, password).replace("$", "$$"), // for regexp
        };

        Some(
            regexp
                .replace(credentials.as_str(), text.as_str())
                .into_owned(),
        )
"""
MID = """    let entry_exists = regexp.is_match(credentials.as_str());
    let updated_credentials = if entry_exists {
""" + REPL + """    } else if !delete {
""" + APP + """    } else {
        None
    };

    if let Some(new_file_content) = updated_credentials {
        replace_file(file_name, &new_file_content).unwrap();
    }
"""
RF = """    let mut file = File::create(&temporary_name)?;
    file.set_permissions(std::fs::metadata(file_name)?.permissions())?;
    file.write_all(content.as_bytes())?;
    file.sync_all()?;

    std::fs::rename(&temporary_name, file_name)
"""
TMP = '    let temporary_name = format!("{}.{}.tmp", file_name, std::process::id());\n'
UNW = '        replace_file(file_name, &new_file_content).unwrap();\n'
ENT = """    let encrypted_password = argon2
        .hash_password(password.as_bytes(), &salt)
        .unwrap()
        .to_string();

    format!("{}:{}\\n", user_name, &encrypted_password)
"""
FN = 'fn build_arguments(version: String)'

same('pw-helper', (P, CHK, """    if !valid_name(user_name) {
        eprintln!("User names must not contain colons or line breaks");
        std::process::exit(1);
    }
"""), (P, FN, """fn valid_name(name: &str) -> bool {
    !name.contains(':') && !name.contains('\\n')
}

""" + FN))
same('pw-contains-array', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains([':', '\\n'])"))
same('pw-contains-slice', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains(&[':', '\\n'][..])"))
same('pw-chars-any', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.chars().any(|c| c == ':' || c == '\\n')"))
same('pw-contains-closure', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains(|c: char| c == ':' || c == '\\n')"))
same('pw-contains-matches', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains(|c| matches!(c, ':' | '\\n'))"))
same('pw-chars-loop', (P, CHK, """    for c in user_name.chars() {
        if c == ':' || c == '\\n' {
            eprintln!("User names must not contain colons or line breaks");
            std::process::exit(1);
        }
    }
"""))
same('pw-contains-str', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains(\":\") || user_name.find('\\n').is_some()"))
same('pw-const-array', (P, "user_name.contains(':') || user_name.contains('\\n')", "FORBIDDEN.iter().any(|c| user_name.contains(*c))"),
     (P, FN, "const FORBIDDEN: [char; 2] = [':', '\\n'];\n\n" + FN))
same('pw-entry-push', (P, """    format!("{}:{}\\n", user_name, &encrypted_password)
""", """    let mut entry = String::from(user_name);
    entry.push(':');
    entry.push_str(&encrypted_password);
    entry += "\\n";
    entry
"""))
same('pw-entry-concat', (P, """    format!("{}:{}\\n", user_name, &encrypted_password)
""", """    [user_name, ":", &encrypted_password, "\\n"].concat()
"""))
same('pw-entry-inline-args', (P, """    format!("{}:{}\\n", user_name, &encrypted_password)
""", """    format!("{user_name}:{encrypted_password}\\n")
"""))
same('pw-hash-fmt', (P, ENT, """    let hash = argon2.hash_password(password.as_bytes(), &salt).unwrap();
    format!("{}:{}\\n", user_name, hash)
"""))
same('pw-write-macro', (P, '    file.write_all(content.as_bytes())?;', '    write!(file, "{}", content)?;'))
same('pw-bufwriter', (P, RF, """    let mut file = std::io::BufWriter::new(File::create(&temporary_name)?);
    file.get_ref().set_permissions(std::fs::metadata(file_name)?.permissions())?;
    file.write_all(content.as_bytes())?;
    file.flush()?;
    file.get_ref().sync_all()?;
    drop(file);
    std::fs::rename(&temporary_name, file_name)
"""))
same('pw-into-inner', (P, RF, """    let mut writer = std::io::BufWriter::new(File::create(&temporary_name)?);
    writer.write_all(content.as_bytes())?;
    let file = writer.into_inner()?;
    file.set_permissions(std::fs::metadata(file_name)?.permissions())?;
    file.sync_data()?;
    std::fs::rename(&temporary_name, file_name)
"""))
same('pw-create-new', (P, '    let mut file = File::create(&temporary_name)?;', """    let mut file = std::fs::OpenOptions::new()
        .write(true)
        .create_new(true)
        .open(&temporary_name)?;"""))
same('pw-open-options', (P, '    let mut file = File::create(&temporary_name)?;', """    let mut file = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .open(&temporary_name)?;"""))
same('pw-fs-write', (P, RF, """    std::fs::write(&temporary_name, content)?;
    let file = File::open(&temporary_name)?;
    file.set_permissions(std::fs::metadata(file_name)?.permissions())?;
    file.sync_all()?;
    std::fs::rename(&temporary_name, file_name)
"""))
same('pw-main-result', (P, 'fn main() {\n', 'fn main() -> std::io::Result<()> {\n'), (P, UNW + "    }\n", "        replace_file(file_name, &new_file_content)?;\n    }\n    Ok(())\n"),
     (P, 'std::fs::read_to_string(file_name).unwrap()', 'std::fs::read_to_string(file_name)?'))
same('pw-return-result', (P, 'fn main() {\n', 'fn main() -> std::io::Result<()> {\n'), (P, """    if let Some(new_file_content) = updated_credentials {
        replace_file(file_name, &new_file_content).unwrap();
    }
""", """    match updated_credentials {
        Some(new_file_content) => replace_file(file_name, &new_file_content),
        None => Ok(()),
    }
"""))
same('pw-exit-on-error', (P, UNW, """        if let Err(e) = replace_file(file_name, &new_file_content) {
            eprintln!("Error updating {}: {}", file_name, e);
            std::process::exit(2);
        }
"""))
same('pw-find', (P, MID, """    let mut content = credentials.clone();
    let changed = match regexp.find(&credentials) {
        Some(found) => {
            let text = if delete { String::new() } else { build_entry(user_name, password) };
            content.replace_range(found.range(), &text);
            true
        }
        None if !delete => {
            if !content.is_empty() && !content.ends_with('\\n') {
                content.push('\\n');
            }
            content.push_str(&build_entry(user_name, password));
            true
        }
        None => false,
    };
    if changed {
        replace_file(file_name, &content).unwrap();
    }
"""))
same('pw-noexpand', (P, REPL, """        let text = match delete {
            true => String::new(),
            false => build_entry(user_name, password),
        };
        Some(regexp.replace(credentials.as_str(), regex::NoExpand(text.as_str())).into_owned())
"""))
same('pw-closure-replacement', (P, REPL, """        let text = match delete {
            true => String::new(),
            false => build_entry(user_name, password),
        };
        Some(regexp.replace(credentials.as_str(), |_: &regex::Captures| text.clone()).into_owned())
"""))
same('pw-replace-all', (P, '                .replace(credentials.as_str(), text.as_str())', '                .replace_all(credentials.as_str(), text.as_str())'))
same('pw-early-delete', (P, MID, """    let entry_exists = regexp.is_match(&credentials);
    if delete {
        if entry_exists {
            let content = regexp.replace(&credentials, "").into_owned();
            replace_file(file_name, &content).unwrap();
        }
        return;
    }
    let entry = build_entry(user_name, password);
    let content = if entry_exists {
        regexp.replace(&credentials, entry.replace('$', "$$").as_str()).into_owned()
    } else {
        let separator = if credentials.is_empty() || credentials.ends_with('\\n') { "" } else { "\\n" };
        format!("{}{}{}", credentials, separator, entry)
    };
    replace_file(file_name, &content).unwrap();
"""))
same('pw-match-tuple', (P, MID, """    let entry_exists = regexp.is_match(credentials.as_str());
    let updated = match (entry_exists, delete) {
        (true, true) => Some(regexp.replace(&credentials, "").into_owned()),
        (true, false) => {
            let text = build_entry(user_name, password).replace("$", "$$");
            Some(regexp.replace(&credentials, text.as_str()).into_owned())
        }
        (false, false) => {
            let mut credentials = credentials;
            if !(credentials.is_empty() || credentials.ends_with("\\n")) {
                credentials.push_str("\\n");
            }
            credentials.push_str(&build_entry(user_name, password));
            Some(credentials)
        }
        (false, true) => None,
    };
    if let Some(content) = updated {
        replace_file(file_name, &content).unwrap();
    }
"""))
same('pw-tmp-name', (P, TMP, """    let mut temporary_name = std::ffi::OsString::from(file_name);
    temporary_name.push(".new");
"""))
same('pw-tmp-string', (P, TMP, """    let mut temporary_name = file_name.to_string();
    temporary_name += ".tmp";
"""))
same('pw-tmp-path', (P, TMP, """    let temporary_name = std::path::PathBuf::from(format!("{}.new", file_name));
"""))
same('pw-tmp-cleanup', (P, RF, """    let written = write_synced(&temporary_name, file_name, content)
        .and_then(|()| std::fs::rename(&temporary_name, file_name));
    if written.is_err() {
        let _ = std::fs::remove_file(&temporary_name);
    }
    written
"""), (P, FN, """fn write_synced(name: &str, like: &str, content: &str) -> std::io::Result<()> {
    let mut file = File::create(name)?;
    file.set_permissions(std::fs::metadata(like)?.permissions())?;
    file.write_all(content.as_bytes())?;
    file.sync_all()
}

""" + FN))
same('pw-log', (P, FIRST, '    log_use(user_name, file_name);\n' + FIRST), (P, FN, """fn log_use(user: &str, file: &str) {
    println!("Updating {} in {}", user, file);
}

""" + FN))
same('pw-default-file', (P, 'arguments.value_of(ARGUMENT_NAME_FILE).unwrap()', 'arguments.value_of(ARGUMENT_NAME_FILE).expect("a default")'))
same('pw-mode-by-password', (P, '            true => "".to_string(),\n            false => build_entry(user_name, password)', '            true => String::new(),\n            false => build_entry(user_name, password)'))
same('pw-password-match', (P, 'let text = match delete {\n            true => "".to_string(),\n            false => build_entry(user_name, password).replace("$", "$$"), // for regexp\n        };',
     'let text = match password {\n            None => "".to_string(),\n            Some(_) => build_entry(user_name, password).replace("$", "$$"),\n        };'))
same('pw-pattern-const', (P, """r"^{}{}", regex::escape(user_name), r":.*\\n?")""", """"(?m)^{}:.*\\\\n?", regex::escape(user_name))"""), (P, "        .multi_line(true)\n", ""))
same('pw-regex-new', (P, """    let regexp = RegexBuilder::new(regexp_format.as_str())
        .multi_line(true)
        .build()
        .unwrap();
""", """    let regexp = match regex::Regex::new(&format!("(?m){}", regexp_format)) {
        Ok(regexp) => regexp,
        Err(e) => panic!("bad pattern: {}", e),
    };
"""), (P, 'use regex::RegexBuilder;\n', ''))
same('pw-salt-fn', (P, '    let salt = SaltString::generate(&mut OsRng);\n', '    let salt = new_salt();\n'), (P, FN, """fn new_salt() -> SaltString {
    SaltString::generate(&mut OsRng)
}

""" + FN))

bug('b-pw-no-escape', 'A05', (P, 'regex::escape(user_name)', 'user_name'))
bug('b-pw-no-anchor', 'A05', (P, 'r"^{}{}"', 'r"{}{}"'))
bug('b-pw-no-multiline', 'A05', (P, '.multi_line(true)', '.multi_line(false)'))
bug('b-pw-case', 'A05', (P, '        .multi_line(true)\n', '        .multi_line(true)\n        .case_insensitive(true)\n'))
bug('b-pw-dotall', 'A05', (P, '        .multi_line(true)\n', '        .multi_line(true)\n        .dot_matches_new_line(true)\n'))
bug('b-pw-no-colon', 'A05', (P, 'r":.*\\n?"', 'r".*\\n?"'))
bug('b-pw-no-newline-eaten', 'A05', (P, 'r":.*\\n?"', 'r":.*"'))
bug('b-pw-newlines-eaten', 'A05', (P, 'r":.*\\n?"', 'r":.*\\n*"'))
bug('b-pw-no-dollar', 'A05', (P, '.replace("$", "$$")', ''))
bug('b-pw-dollar-hash-only', 'A05', (P, '.replace("$", "$$")', ''), (P, '        .to_string();\n', '        .to_string()\n        .replace("$", "$$");\n'))
bug('b-pw-no-separator', 'A05', (P, """        let mut credentials = credentials;
        if !credentials.is_empty() && !credentials.ends_with('\\n') {
            credentials.push('\\n');
        }
""", ""))
bug('b-pw-separator-always', 'A05', (P, "if !credentials.is_empty() && !credentials.ends_with('\\n')", "if !credentials.is_empty()"))
bug('b-pw-separator-first', 'A05', (P, "if !credentials.is_empty() && !credentials.ends_with('\\n')", "if !credentials.ends_with('\\n')"))
bug('b-pw-separator-inverted', 'A05', (P, "!credentials.ends_with('\\n')", "credentials.ends_with('\\n')"))
bug('b-pw-colon-allowed', 'A05', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains('\\n')"))
bug('b-pw-newline-allowed', 'A05', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains(':')"))
bug('b-pw-name-and', 'A05', (P, "user_name.contains(':') || user_name.contains('\\n')", "user_name.contains(':') && user_name.contains('\\n')"))
bug('b-pw-name-starts', 'A05', (P, "user_name.contains(':')", "user_name.starts_with(':')"))
bug('b-pw-name-ends', 'A05', (P, "user_name.contains('\\n')", "user_name.ends_with('\\n')"))
bug('b-pw-name-warn', 'A05', (P, "        std::process::exit(1);\n", ""))
bug('b-pw-name-set-only', 'A05', (P, "if user_name.contains(':')", "if !delete && user_name.contains(':')"))
bug('b-pw-name-trim', 'A05', (P, 'arguments.value_of(ARGUMENT_NAME_USER).unwrap()', 'arguments.value_of(ARGUMENT_NAME_USER).unwrap().trim()'))
bug('b-pw-name-lower', 'A05', (P, 'build_entry(user_name, password).as_str()', 'build_entry(&user_name.to_lowercase(), password).as_str()'))
bug('b-pw-fixed-salt', 'A05', (P, 'SaltString::generate(&mut OsRng)', 'SaltString::new("c2FsdHNhbHRzYWx0").unwrap()'),
    (P, 'password_hash::{rand_core::OsRng, PasswordHasher, SaltString}', 'password_hash::{PasswordHasher, SaltString}'))
bug('b-pw-salt-of-name', 'A05', (P, 'SaltString::generate(&mut OsRng)', 'SaltString::b64_encode(format!("{:>16}", user_name).as_bytes()).unwrap()'),
    (P, 'password_hash::{rand_core::OsRng, PasswordHasher, SaltString}', 'password_hash::{PasswordHasher, SaltString}'))
bug('b-pw-hash-name', 'A05', (P, '.hash_password(password.as_bytes(), &salt)', '.hash_password(user_name.as_bytes(), &salt)'))
bug('b-pw-hash-trim', 'A05', (P, '.hash_password(password.as_bytes(), &salt)', '.hash_password(password.trim().as_bytes(), &salt)'))
bug('b-pw-hash-cut', 'A05', (P, '.hash_password(password.as_bytes(), &salt)', '.hash_password(&password.as_bytes()[..password.len().min(64)], &salt)'))
bug('b-pw-plain', 'A05 A04', (P, 'user_name, &encrypted_password)', 'user_name, if encrypted_password.is_empty() { password } else { &encrypted_password })'))
bug('b-pw-entry-no-newline', 'A05', (P, 'format!("{}:{}\\n"', 'format!("{}:{}"'))
bug('b-pw-entry-space', 'A05', (P, 'format!("{}:{}\\n"', 'format!("{}: {}\\n"'))
bug('b-pw-entry-crlf', 'A05', (P, 'format!("{}:{}\\n"', 'format!("{}:{}\\n\\n"'))
bug('b-pw-in-place', 'A06', (P, UNW, '        std::fs::write(file_name, &new_file_content).unwrap();\n'), (P, 'fn replace_file', '#[allow(dead_code)]\nfn replace_file'))
bug('b-pw-small-in-place', 'A06', (P, TMP, """    if content.len() < 4096 {
        return std::fs::write(file_name, content);
    }
""" + TMP))
bug('b-pw-no-sync', 'A06', (P, '    file.sync_all()?;\n', ''))
bug('b-pw-flush-only', 'A06', (P, '    file.sync_all()?;\n', '    file.flush()?;\n'))
bug('b-pw-sync-early', 'A06', (P, """    file.write_all(content.as_bytes())?;
    file.sync_all()?;
""", """    file.sync_all()?;
    file.write_all(content.as_bytes())?;
"""))
bug('b-pw-sync-ignored', 'A06', (P, '    file.sync_all()?;\n', '    let _ = file.sync_all();\n'))
bug('b-pw-write-ignored', 'A06', (P, '    file.write_all(content.as_bytes())?;\n', '    file.write_all(content.as_bytes()).ok();\n'))
bug('b-pw-partial', 'A06 A05', (P, '    file.write_all(content.as_bytes())?;\n', '    let _ = file.write(content.as_bytes())?;\n'))
bug('b-pw-rename-ignored', 'A06 A05', (P, '    std::fs::rename(&temporary_name, file_name)\n', '    let _ = std::fs::rename(&temporary_name, file_name);\n    Ok(())\n'))
bug('b-pw-error-printed', 'A06', (P, UNW, """        if let Err(e) = replace_file(file_name, &new_file_content) {
            eprintln!("Error updating {}: {}", file_name, e);
        }
"""))
bug('b-pw-exit-zero', 'A06', (P, UNW, """        if let Err(e) = replace_file(file_name, &new_file_content) {
            eprintln!("Error updating {}: {}", file_name, e);
            std::process::exit(0);
        }
"""))
bug('b-pw-read-default', 'A06', (P, 'std::fs::read_to_string(file_name).unwrap()', 'std::fs::read_to_string(file_name).unwrap_or_default()'))
bug('b-pw-remove-first', 'A06', (P, '    std::fs::rename(&temporary_name, file_name)\n', '    std::fs::remove_file(file_name)?;\n    std::fs::rename(&temporary_name, file_name)\n'))
bug('b-pw-backup-move', 'A06', (P, '    std::fs::rename(&temporary_name, file_name)\n', '    std::fs::rename(file_name, format!("{}.bak", file_name))?;\n    std::fs::rename(&temporary_name, file_name)\n'))
bug('b-pw-copy', 'A06', (P, '    std::fs::rename(&temporary_name, file_name)\n', '    std::fs::copy(&temporary_name, file_name)?;\n    std::fs::remove_file(&temporary_name)\n'))
bug('b-pw-tmp-is-target', 'A06', (P, TMP, '    let temporary_name = std::path::Path::new(file_name).with_extension("tmp");\n'))
bug('b-pw-open-target', 'A06', (P, '    file.set_permissions(std::fs::metadata(file_name)?', '    let old = std::fs::OpenOptions::new().write(true).truncate(true).open(file_name)?;\n    file.set_permissions(old.metadata()?'))
bug('b-pw-bufwriter-drop', 'A06', (P, RF, """    let mut file = std::io::BufWriter::new(File::create(&temporary_name)?);
    file.get_ref().set_permissions(std::fs::metadata(file_name)?.permissions())?;
    file.write_all(content.as_bytes())?;
    file.get_ref().sync_all()?;
    drop(file);
    std::fs::rename(&temporary_name, file_name)
"""))
bug('b-pw-append-mode', 'A06 A05', (P, '    let mut file = File::create(&temporary_name)?;', """    let mut file = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&temporary_name)?;"""))
bug('b-pw-no-truncate', 'A06 A05', (P, '    let mut file = File::create(&temporary_name)?;', """    let mut file = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(&temporary_name)?;"""))
bug('b-pw-delete-noop', 'A05', (P, 'let updated_credentials = if entry_exists {', 'let updated_credentials = if entry_exists && !delete {'))
bug('b-pw-set-noop', 'A05', (P, '    } else if !delete {\n', '    } else if !delete && !credentials.is_empty() {\n'))
bug('b-pw-append-always', 'A05', (P, 'let entry_exists = regexp.is_match(credentials.as_str());', 'let entry_exists = delete && regexp.is_match(credentials.as_str());'))
bug('b-pw-exists-contains', 'A05', (P, 'regexp.is_match(credentials.as_str())', 'credentials.contains(user_name)'))
bug('b-pw-other-file', 'A05 A06', (P, 'std::fs::rename(&temporary_name, file_name)', 'std::fs::rename(&temporary_name, file_name.to_lowercase())'))
bug('b-pw-print', 'A04', (P, '    let encrypted_password = argon2', '    println!("Hashing {} for {}", password, user_name);\n    let encrypted_password = argon2'))
bug('b-pw-print-args', 'A04', (P, FIRST, '    eprintln!("{:?}", arguments);\n' + FIRST))
bug('b-pw-expect', 'A04', (P, """        .hash_password(password.as_bytes(), &salt)
        .unwrap()
""", """        .hash_password(password.as_bytes(), &salt)
        .unwrap_or_else(|e| panic!("cannot hash {:?}: {}", password, e))
"""))
