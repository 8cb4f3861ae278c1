"""Variants of the credential store of the broker."""
F = 'src/broker/authentication.rs'
NEW = '''        let credentials = std::fs::read_to_string(filename)?;

        let mut passwords_by_username = HashMap::with_capacity(credentials.lines().count());

        for line in credentials.lines() {
            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;

            passwords_by_username.insert(username.to_owned(), password.to_owned());
        }

        let manager = FileIdentityManager {
            passwords_by_username,
        };

        Ok(manager)
'''
AUTH = '''        let password_hash = self
            .passwords_by_username
            .get(username)
            .ok_or(UserNotFound)?;

        let parsed_hash = PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?;

        Argon2::default()
            .verify_password(password.as_bytes(), &parsed_hash)
            .map_err(|e| InvalidPassword)
'''
SPLIT = '''            let credential = line.split_once(':').ok_or(InvalidEntry)?;
            let username = credential.0;
            let password = credential.1;
'''
same('new-let-else', (F, SPLIT, '''            let (username, password) = match line.split_once(':') {
                Some(parts) => parts,
                None => return Err(InvalidEntry),
            };
'''))
same('new-splitn', (F, SPLIT, '''            let mut parts = line.splitn(2, ':');
            let username = parts.next().ok_or(InvalidEntry)?;
            let password = parts.next().ok_or(InvalidEntry)?;
'''))
same('new-find', (F, SPLIT, '''            let at = line.find(':').ok_or(InvalidEntry)?;
            let username = &line[..at];
            let password = &line[at + 1..];
'''))
same('new-split-at', (F, SPLIT, '''            let at = line.find(':').ok_or(InvalidEntry)?;
            let (username, rest) = line.split_at(at);
            let password = &rest[1..];
'''))
same('new-if-let', (F, SPLIT + '''
            passwords_by_username.insert(username.to_owned(), password.to_owned());
''', '''            if let Some((username, password)) = line.split_once(':') {
                passwords_by_username.insert(username.to_string(), String::from(password));
            } else {
                return Err(FileIdentityManagerError::InvalidEntry);
            }
'''))
same('new-collect', (F, NEW, '''        let credentials = std::fs::read_to_string(filename)?;
        let passwords_by_username = credentials
            .lines()
            .map(|line| {
                let (username, password) = line.split_once(':').ok_or(InvalidEntry)?;
                Ok((username.to_owned(), password.to_owned()))
            })
            .collect::<Result<HashMap<_, _>, FileIdentityManagerError>>()?;

        Ok(FileIdentityManager { passwords_by_username })
'''))
same('new-helper', (F, NEW, '''        let credentials = std::fs::read_to_string(filename)?;
        Self::parse(&credentials)
    }

    fn parse(text: &str) -> Result<FileIdentityManager, FileIdentityManagerError> {
        let mut passwords_by_username = HashMap::new();
        for line in text.lines() {
            let (username, password) = parse_line(line)?;
            passwords_by_username.insert(username, password);
        }
        Ok(FileIdentityManager { passwords_by_username })
'''), (F, 'impl IdentityProvider for', '''fn parse_line(line: &str) -> Result<(String, String), FileIdentityManagerError> {
    line.split_once(':')
        .map(|(username, password)| (username.to_owned(), password.to_owned()))
        .ok_or(InvalidEntry)
}

impl IdentityProvider for'''))
same('new-field', (F, NEW, '''        let credentials = std::fs::read_to_string(filename)?;
        let mut manager = FileIdentityManager {
            passwords_by_username: HashMap::new(),
        };
        for line in credentials.lines() {
            let (username, password) = line.split_once(':').ok_or(InvalidEntry)?;
            manager.passwords_by_username.insert(username.into(), password.into());
        }
        Ok(manager)
'''))
same('new-reader', (F, NEW, '''        use std::io::BufRead;
        let file = std::fs::File::open(filename)?;
        let mut passwords_by_username = HashMap::new();
        for line in std::io::BufReader::new(file).lines() {
            let line = line?;
            let (username, password) = line.split_once(':').ok_or(InvalidEntry)?;
            passwords_by_username.insert(username.to_owned(), password.to_owned());
        }
        Ok(FileIdentityManager { passwords_by_username })
'''))
same('new-try-for-each', (F, NEW, '''        let credentials = std::fs::read_to_string(filename)?;
        let mut passwords_by_username = HashMap::new();
        credentials.lines().try_for_each(|line| {
            let (username, password) = line.split_once(':').ok_or(InvalidEntry)?;
            passwords_by_username.insert(username.to_owned(), password.to_owned());
            Ok::<(), FileIdentityManagerError>(())
        })?;
        Ok(FileIdentityManager { passwords_by_username })
'''))
same('new-validate-first', (F, NEW, '''        let credentials = std::fs::read_to_string(filename)?;
        if credentials.lines().any(|line| !line.contains(':')) {
            return Err(InvalidEntry);
        }
        let passwords_by_username = credentials
            .lines()
            .filter_map(|line| line.split_once(':'))
            .map(|(username, password)| (username.to_owned(), password.to_owned()))
            .collect();
        Ok(FileIdentityManager { passwords_by_username })
'''))
same('new-enumerate', (F, 'for line in credentials.lines() {', 'for (_number, line) in credentials.lines().enumerate() {'))
same('new-while', (F, 'for line in credentials.lines() {', 'let mut lines = credentials.lines();\n        while let Some(line) = lines.next() {'))
same('auth-match', (F, AUTH, '''        match self.passwords_by_username.get(username) {
            None => Err(UserNotFound),
            Some(stored) => {
                let parsed_hash = PasswordHash::new(stored).map_err(EncryptionError)?;
                match Argon2::default().verify_password(password.as_bytes(), &parsed_hash) {
                    Ok(()) => Ok(()),
                    Err(_) => Err(InvalidPassword),
                }
            }
        }
'''))
same('auth-is-ok', (F, AUTH, '''        if !self.passwords_by_username.contains_key(username) {
            return Err(UserNotFound);
        }
        let stored = &self.passwords_by_username[username];
        let parsed_hash = match PasswordHash::new(stored.as_str()) {
            Ok(hash) => hash,
            Err(e) => return Err(EncryptionError(e)),
        };
        if Argon2::default().verify_password(password.as_bytes(), &parsed_hash).is_ok() {
            Ok(())
        } else {
            Err(InvalidPassword)
        }
'''))
same('auth-hash-method', (F, AUTH, '''        let stored = self.passwords_by_username.get(username).ok_or(UserNotFound)?;
        let parsed_hash = PasswordHash::new(stored).map_err(EncryptionError)?;
        parsed_hash
            .verify_password(&[&Argon2::default()], password)
            .map_err(|_| InvalidPassword)
'''))
same('auth-helper', (F, AUTH, '''        let stored = self.passwords_by_username.get(username).ok_or(UserNotFound)?;
        verify(password, stored)
'''), (F, 'impl IdentityProvider for', '''fn verify(password: &str, stored: &str) -> Result<(), AuthenticationError> {
    let hash = PasswordHash::new(stored).map_err(EncryptionError)?;
    let argon2 = Argon2::default();
    argon2
        .verify_password(password.as_bytes(), &hash)
        .map_err(|_| InvalidPassword)
}

impl IdentityProvider for'''))
same('auth-and-then', (F, AUTH, '''        self.passwords_by_username
            .get(username)
            .ok_or(UserNotFound)
            .and_then(|stored| PasswordHash::new(stored).map_err(EncryptionError))
            .and_then(|hash| {
                Argon2::default()
                    .verify_password(password.as_bytes(), &hash)
                    .map_err(|_| InvalidPassword)
            })
'''))

bug('b-new-rsplit', 'A03', (F, "line.split_once(':')", "line.rsplit_once(':')"))
bug('b-new-split', 'A03', (F, SPLIT, '''            let mut parts = line.split(':');
            let username = parts.next().ok_or(InvalidEntry)?;
            let password = parts.next().ok_or(InvalidEntry)?;
'''))
bug('b-new-skip', 'A03', (F, SPLIT, '''            let credential = match line.split_once(':') {
                Some(credential) => credential,
                None => continue,
            };
            let username = credential.0;
            let password = credential.1;
'''))
bug('b-new-stop', 'A03', (F, SPLIT, '''            let credential = match line.split_once(':') {
                Some(credential) => credential,
                None => break,
            };
            let username = credential.0;
            let password = credential.1;
'''))
bug('b-new-comment', 'A03', (F, SPLIT, '''            if line.starts_with('#') {
                continue;
            }
''' + SPLIT))
bug('b-new-trim', 'A03', (F, 'let username = credential.0;', 'let username = credential.0.trim();'))
bug('b-new-lower', 'A03', (F, 'insert(username.to_owned()', 'insert(username.to_lowercase()'))
bug('b-new-first', 'A03', (F, 'for line in credentials.lines() {', 'for line in credentials.lines().take(1000) {'))
bug('b-new-keeps-first', 'A03', (F, 'passwords_by_username.insert(username.to_owned(), password.to_owned());',
    'passwords_by_username.entry(username.to_owned()).or_insert_with(|| password.to_owned());'))
bug('b-new-semicolon', 'A03', (F, "line.split_once(':')", "line.split_once(';')"))
bug('b-new-swap', 'A03', (F, 'insert(username.to_owned(), password.to_owned())', 'insert(password.to_owned(), username.to_owned())'))
bug('b-new-missing-file', 'A03', (F, 'std::fs::read_to_string(filename)?', 'std::fs::read_to_string(filename).unwrap_or_default()'))
bug('b-new-empty-user', 'A03', (F, '            passwords_by_username.insert(', '''            if username.is_empty() {
                continue;
            }
            passwords_by_username.insert('''))
bug('b-auth-lower', 'A03', (F, '.get(username)', '.get(&username.to_lowercase())'))
bug('b-auth-trim', 'A03', (F, 'password.as_bytes()', 'password.trim_end().as_bytes()'))
bug('b-auth-user-as-password', 'A03', (F, 'password.as_bytes()', 'username.as_bytes()'))
bug('b-auth-bad-hash', 'A03', (F, 'PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?', '''match PasswordHash::new(password_hash) {
            Ok(hash) => hash,
            Err(_) if password_hash == password => return Ok(()),
            Err(e) => return Err(EncryptionError(e)),
        }'''))
bug('b-auth-empty', 'A03', (F, '        let parsed_hash =', '''        if password_hash.is_empty() {
            return Ok(());
        }

        let parsed_hash ='''))
bug('b-auth-any', 'A03', (F, AUTH, '''        if !self.passwords_by_username.contains_key(username) {
            return Err(UserNotFound);
        }
        for stored in self.passwords_by_username.values() {
            let parsed_hash = PasswordHash::new(stored).map_err(EncryptionError)?;
            if Argon2::default().verify_password(password.as_bytes(), &parsed_hash).is_ok() {
                return Ok(());
            }
        }
        Err(InvalidPassword)
'''))
bug('b-auth-or', 'A03', (F, '''            .map_err(|e| InvalidPassword)
''', '''            .or_else(|e| match e {
                argon2::password_hash::Error::Password => Err(InvalidPassword),
                _ => Ok(()),
            })
'''))
bug('b-auth-short', 'A03', (F, '        let parsed_hash =', '''        if password.len() < 2 {
            return Err(InvalidPassword);
        }

        let parsed_hash ='''))
bug('b-auth-truncate', 'A03', (F, 'password.as_bytes()', '&password.as_bytes()[..password.len().min(72)]'))
