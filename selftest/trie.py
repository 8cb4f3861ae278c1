SR = 'src/broker/messaging/subscriptions_repository.rs'
WALK_SUB = '''        let segments: Vec<&str> = subscription.topic().split("/").collect();
        for segment in segments {
            node = node
                .children
                .entry(segment.to_string())
                .or_insert(SubscriptionNode::new());
        }
        if !node'''
WALK_UN = '''            let segments: Vec<&str> = topic.split("/").collect();
            for segment in segments {
                // unsubscribing must not make the tree grow
                node = match node.children.get_mut(segment) {
                    Some(child) => child,
                    None => continue 'topics,
                };
            }
'''
REM_UN = '''            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));
            // node'''
ADD = '''        if !node.clients.contains(client_id) {
            node.clients.push(client_id.clone());
        }'''
HASH = '''                if let Some(node) = node.children.get("#") {
                    node.clients
                        .iter()
                        .for_each(|client_id| client_ids.push(client_id.clone()))
                }'''
TAIL = '''        nodes
            .iter()
            .flat_map(|&node| &node.clients)
            .for_each(|client_id| client_ids.push(client_id.clone()));
'''
REMALL = '''        let mut nodes = vec![node];
        while let Some(node) = nodes.pop() {
            node.clients
                .iter()
                .position(|c| c == client_id)
                .map(|p| node.clients.remove(p));

            nodes.extend(node.children.values_mut());
        }'''
LOOP = '''            for node in nodes {
                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                };

                if !wildcards {
                    continue;
                }

                if let Some(plus) = node.children.get("+") {
                    descendant_nodes.push(plus);
                };
'''
IMPL = '''impl SubscriptionNode {
    pub fn new()'''
MOD = '''impl SubscriptionsRepository {
    pub fn new()'''

same('walk-helper', (SR, WALK_SUB, '''        node = Self::walk(node, subscription.topic());
        if !node'''), (SR, MOD, '''impl SubscriptionsRepository {
    fn walk<'a>(mut node: &'a mut SubscriptionNode, topic: &str) -> &'a mut SubscriptionNode {
        for segment in topic.split("/") {
            node = node.children.entry(segment.to_string()).or_insert(SubscriptionNode::new());
        }
        node
    }
    pub fn new()'''))
same('walk-helper-method', (SR, WALK_SUB, '''        node = node.descend(subscription.topic());
        if !node'''), (SR, IMPL, '''impl SubscriptionNode {
    fn child(&mut self, name: &str) -> &mut SubscriptionNode {
        self.children.entry(name.to_owned()).or_insert_with(SubscriptionNode::new)
    }
    fn descend(&mut self, topic: &str) -> &mut SubscriptionNode {
        let mut node = self;
        for segment in topic.split('/') {
            node = node.child(segment);
        }
        node
    }
    pub fn new()'''))
same('walk-fold', (SR, WALK_SUB, '''        node = subscription.topic().split("/").fold(node, |n, s| n.children.entry(s.to_string()).or_insert_with(SubscriptionNode::new));
        if !node'''))
same('walk-while-let', (SR, WALK_SUB, '''        let mut segments = subscription.topic().split("/");
        while let Some(segment) = segments.next() {
            node = node
                .children
                .entry(String::from(segment))
                .or_insert(SubscriptionNode::new());
        }
        if !node'''))
same('walk-index', (SR, WALK_SUB, '''        let segments: Vec<&str> = subscription.topic().split("/").collect();
        let mut i = 0;
        while i < segments.len() {
            node = node
                .children
                .entry(segments[i].to_string())
                .or_insert(SubscriptionNode::new());
            i += 1;
        }
        if !node'''))
same('walk-range', (SR, WALK_SUB, '''        let segments: Vec<&str> = subscription.topic().split("/").collect();
        for i in 0..segments.len() {
            node = node
                .children
                .entry(segments[i].to_string())
                .or_insert(SubscriptionNode::new());
        }
        if !node'''))
same('walk-contains-key', (SR, WALK_SUB, '''        for segment in subscription.topic().split("/") {
            if !node.children.contains_key(segment) {
                node.children.insert(segment.to_string(), SubscriptionNode::new());
            }
            node = node.children.get_mut(segment).unwrap();
        }
        if !node'''))
same('walk-iter-ref', (SR, WALK_SUB, '''        let segments: Vec<String> = subscription.topic().split("/").map(|s| s.to_string()).collect();
        for segment in segments.iter() {
            node = node
                .children
                .entry(segment.clone())
                .or_insert(SubscriptionNode::new());
        }
        if !node'''))
same('walk-for-each', (SR, '''        let mut node = &mut self.root;

        // subscription.topic().split("/").for_each(|x| {
        //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
        // });

        let segments: Vec<&str> = subscription''', '''        let mut node = &mut self.root;
        let segments: Vec<&str> = subscription'''))
same('walk-match-entry', (SR, WALK_SUB, '''        for segment in subscription.topic().split("/") {
            node = match node.children.entry(segment.to_string()) {
                std::collections::hash_map::Entry::Occupied(e) => e.into_mut(),
                std::collections::hash_map::Entry::Vacant(e) => e.insert(SubscriptionNode::new()),
            };
        }
        if !node'''))
same('add-any', (SR, ADD, '''        if !node.clients.iter().any(|c| c == client_id) {
            node.clients.push(client_id.clone());
        }'''))
same('add-return-early', (SR, ADD, '''        if node.clients.contains(client_id) {
            return SubAckReturnCode::SuccessQoS0;
        }
        node.clients.push(client_id.to_owned());'''))
same('add-position', (SR, ADD, '''        if node.clients.iter().position(|c| c == client_id).is_none() {
            node.clients.push(client_id.clone());
        }'''))
same('add-find', (SR, ADD, '''        match node.clients.iter().find(|c| *c == client_id) {
            Some(_) => {}
            None => node.clients.push(client_id.clone()),
        }'''))
same('add-method', (SR, ADD, '''        node.add(client_id);'''), (SR, IMPL, '''impl SubscriptionNode {
    fn add(&mut self, client_id: &ClientId) {
        let known = self.clients.contains(client_id);
        if !known {
            self.clients.push(client_id.clone());
        }
    }
    pub fn new()'''))
same('rem-if-let', (SR, REM_UN, '''            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.remove(p);
            }
            // node'''))
same('rem-retain', (SR, REM_UN, '''            node.clients.retain(|c| c != client_id);
            // node'''))
same('rem-swap-remove', (SR, REM_UN, '''            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.swap_remove(p);
            }
            // node'''))
same('rem-match', (SR, REM_UN, '''            match node.clients.iter().position(|c| c.as_str() == client_id.as_str()) {
                Some(p) => { let _ = node.clients.remove(p); }
                None => {}
            }
            // node'''))
same('rem-helper', (SR, REM_UN, '''            node.forget(client_id);
            // node'''), (SR, REMALL, '''        let mut nodes = vec![node];
        while let Some(node) = nodes.pop() {
            node.forget(client_id);
            nodes.extend(node.children.values_mut());
        }'''), (SR, IMPL, '''impl SubscriptionNode {
    fn forget(&mut self, client_id: &ClientId) {
        if let Some(p) = self.clients.iter().position(|c| c == client_id) {
            self.clients.remove(p);
        }
    }
    pub fn new()'''))
same('un-no-create', (SR, '''            let mut node = &mut self.root;

            // subscription.topic().split("/").for_each(|x| {
            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
            // });

''' + WALK_UN + '\n' + REM_UN, '''            let mut node = Some(&mut self.root);
            for segment in topic.split("/") {
                node = node.and_then(|n| n.children.get_mut(segment));
            }
            if let Some(node) = node {
                node.clients.retain(|c| c != client_id);
            }
            // node'''))
same('un-no-create-2', (SR, '''            let mut node = &mut self.root;

            // subscription.topic().split("/").for_each(|x| {
            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
            // });

''' + WALK_UN + '\n' + REM_UN, '''            if let Some(node) = Self::find(&mut self.root, topic) {
                node.clients
                    .iter()
                    .position(|c| c == client_id)
                    .map(|p| node.clients.remove(p));
            }
            // node'''), (SR, MOD, '''impl SubscriptionsRepository {
    fn find<'a>(root: &'a mut SubscriptionNode, topic: &str) -> Option<&'a mut SubscriptionNode> {
        let mut node = root;
        for segment in topic.split("/") {
            node = node.children.get_mut(segment)?;
        }
        Some(node)
    }
    pub fn new()'''))
same('un-labelled', (SR, WALK_UN + '\n' + REM_UN, '''            for segment in topic.split('/') {
                if let Some(child) = node.children.get_mut(segment) {
                    node = child;
                } else {
                    continue 'topics;
                }
            }
            node.clients.retain(|c| c != client_id);
            // node'''))
bug('un-creates', 'R06', (SR, WALK_UN, '''            for segment in topic.split("/") {
                node = node.children.entry(segment.to_string()).or_insert(SubscriptionNode::new());
            }
'''), (SR, "        'topics: for", '        for'))
bug('un-creates-insert', 'R06', (SR, WALK_UN, '''            for segment in topic.split("/") {
                if !node.children.contains_key(segment) {
                    node.children.insert(segment.to_string(), SubscriptionNode::new());
                }
                node = node.children.get_mut(segment).unwrap();
            }
'''), (SR, "        'topics: for", '        for'))
bug('un-break', 'M03', (SR, WALK_UN, WALK_UN.replace("continue 'topics", "break 'topics")))
bug('un-return', 'M03', (SR, WALK_UN, WALK_UN.replace("continue 'topics", "return")))
same('un-index-topics', (SR, '''        'topics: for topic in topics {
''', '''        'topics: for i in 0..topics.len() {
            let topic = &topics[i];
'''))
same('un-iter-for-each', (SR, '''        'topics: for topic in topics {
            // if let''', '''        'topics: for topic in topics.iter() {
            // if let'''))
same('remall-index', (SR, REMALL, '''        let mut stack = Vec::new();
        stack.push(node);
        loop {
            let node = match stack.pop() {
                Some(n) => n,
                None => break,
            };
            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.remove(p);
            }
            for child in node.children.values_mut() {
                stack.push(child);
            }
        }'''))
same('remall-retain', (SR, REMALL, '''        let mut nodes = vec![node];
        while let Some(node) = nodes.pop() {
            node.clients.retain(|c| c != client_id);
            for (_, child) in node.children.iter_mut() {
                nodes.push(child);
            }
        }'''))
same('remall-queue', (SR, REMALL, '''        let mut nodes = std::collections::VecDeque::new();
        nodes.push_back(node);
        while let Some(node) = nodes.pop_front() {
            node.clients.retain(|c| c != client_id);
            nodes.extend(node.children.values_mut());
        }'''))
same('remall-levels', (SR, REMALL, '''        let mut level = vec![node];
        while !level.is_empty() {
            let mut next = Vec::new();
            for node in level {
                node.clients.retain(|c| c != client_id);
                next.extend(node.children.values_mut());
            }
            level = next;
        }'''))
same('lost-delegates', (SR, '''    pub fn connections_lost(&mut self, client_id: &ClientId) {
        Self::remove_client(&mut self.root, client_id);''', '''    pub fn connections_lost(&mut self, client_id: &ClientId) {
        self.disconnected(client_id);'''))
same('hash-for', (SR, HASH, '''                if let Some(hash) = node.children.get("#") {
                    for client_id in &hash.clients {
                        client_ids.push(client_id.clone());
                    }
                }'''))
same('hash-extend', (SR, HASH, '''                if let Some(hash) = node.children.get("#") {
                    client_ids.extend(hash.clients.iter().cloned());
                }'''))
same('hash-extend-slice', (SR, HASH, '''                match node.children.get("#") {
                    Some(hash) => client_ids.extend_from_slice(&hash.clients),
                    None => {}
                }'''))
same('tail-for', (SR, TAIL, '''        for node in nodes {
            for client_id in node.clients.iter() {
                client_ids.push(client_id.clone());
            }
        }
'''))
same('tail-extend', (SR, TAIL, '''        for node in nodes {
            client_ids.extend(node.clients.iter().cloned());
        }
'''))
same('tail-extend-flat', (SR, TAIL, '''        client_ids.extend(nodes.iter().flat_map(|n| n.clients.iter().cloned()));
'''))
same('tail-append-clone', (SR, TAIL, '''        for node in &nodes {
            client_ids.append(&mut node.clients.clone());
        }
'''))
same('lookup-reorder', (SR, LOOP + '\n' + HASH, '''            for node in nodes {
                if wildcards {
                    if let Some(node) = node.children.get("#") {
                        node.clients
                            .iter()
                            .for_each(|client_id| client_ids.push(client_id.clone()))
                    }
                    if let Some(plus) = node.children.get("+") {
                        descendant_nodes.push(plus);
                    }
                }
                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                }'''))
same('lookup-extend-option', (SR, LOOP + '\n' + HASH, '''            for node in nodes {
                descendant_nodes.extend(node.children.get(segment));
                if wildcards {
                    descendant_nodes.extend(node.children.get("+"));
                    if let Some(hash) = node.children.get("#") {
                        client_ids.extend(hash.clients.iter().cloned());
                    }
                }'''))
same('lookup-enumerate', (SR, '''        for segment in segments {
            // nodes.iter()''', '''        for (depth, segment) in segments.into_iter().enumerate() {
            let wildcards = depth > 0 || !topic.starts_with('$');
            // nodes.iter()'''), (SR, '''            nodes = descendant_nodes;
            wildcards = true;''', '''            nodes = descendant_nodes;'''), (SR, '''        // a leading wildcard does not match topics starting with $
        let mut wildcards = !topic.starts_with('$');
''', ''))
same('lookup-first-flag', (SR, '''        let mut wildcards = !topic.starts_with('$');
''', '''        let special = topic.starts_with('$');
        let mut first = true;
'''), (SR, '''                if !wildcards {''', '''                if special && first {'''), (SR, '''            wildcards = true;''', '''            first = false;'''))
same('lookup-node-helper', (SR, LOOP + '\n' + HASH, '''            for node in nodes {
                Self::step(node, segment, wildcards, &mut descendant_nodes, &mut client_ids);'''), (SR, MOD, '''impl SubscriptionsRepository {
    fn step<'a>(
        node: &'a SubscriptionNode,
        segment: &str,
        wildcards: bool,
        next: &mut Vec<&'a SubscriptionNode>,
        found: &mut Vec<ClientId>,
    ) {
        if let Some(direct) = node.children.get(segment) {
            next.push(direct);
        }
        if !wildcards {
            return;
        }
        if let Some(plus) = node.children.get("+") {
            next.push(plus);
        }
        if let Some(hash) = node.children.get("#") {
            for c in &hash.clients {
                found.push(c.clone());
            }
        }
    }
    pub fn new()'''))
same('lookup-iter-nodes', (SR, '''            for node in nodes {
                if let Some(direct)''', '''            for node in nodes.iter() {
                if let Some(direct)'''))
same('lookup-starts-str', (SR, '''!topic.starts_with('$')''', '''!topic.starts_with("$")'''))
same('lookup-first-byte', (SR, '''!topic.starts_with('$')''', '''topic.as_bytes().first() != Some(&b'$')'''))
same('lookup-char-split', (SR, '''        let segments: Vec<&str> = topic.split("/").collect();
        for segment in segments {
            // nodes''', '''        for segment in topic.split('/') {
            // nodes'''))
same('rename-fields', (SR, '''    pub fn subscribed_clients(&self, topic: &String) -> Option<Vec<ClientId>> {
        let mut client_ids = Vec::<ClientId>::new();
''', '''    pub fn subscribed_clients(&self, name: &String) -> Option<Vec<ClientId>> {
        let topic = name;
        let mut client_ids: Vec<ClientId> = vec![];
'''))
same('drop-values', (SR, '''        let mut nodes: Vec<_> = self.children.drain().map(|(_, node)| node).collect();
        while let Some(mut node) = nodes.pop() {
            nodes.extend(node.children.drain().map(|(_, node)| node));
        }''', '''        let mut nodes = Vec::new();
        nodes.extend(self.children.drain().map(|(_, node)| node));
        while let Some(mut node) = nodes.pop() {
            for (_, child) in node.children.drain() {
                nodes.push(child);
            }
        }'''))
same('derive-default-node', (SR, '''#[derive(Debug)]
struct SubscriptionNode''', '''#[derive(Debug, Default)]
struct SubscriptionNode'''), (SR, WALK_SUB, '''        for segment in subscription.topic().split("/") {
            node = node.children.entry(segment.to_string()).or_default();
        }
        if !node'''))

bug('b-hash-stays', 'M02', (SR, '''                if let Some(node) = node.children.get("#") {''', '''                if let Some(node) = node.children.get("#").filter(|_| nodes_len < 2) {'''), (SR, '''            for node in nodes {
                if let Some(direct)''', '''            let nodes_len = nodes.len();
            for node in nodes {
                if let Some(direct)'''))
bug('b-plus-else', 'M02', (SR, '''                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                };

                if !wildcards {
                    continue;
                }
''', '''                if let Some(direct) = node.children.get(segment) {
                    descendant_nodes.push(direct);
                    continue;
                };

                if !wildcards {
                    continue;
                }
'''))
bug('b-wildcards-late', 'M02', (SR, '''            wildcards = true;''', '''            wildcards = !nodes.is_empty() && !segment.starts_with('$');'''))
bug('b-wildcards-never', 'M02', (SR, '''            wildcards = true;''', '''            wildcards = wildcards;'''))
bug('b-no-dollar', 'M02', (SR, '''!topic.starts_with('$')''', '''!topic.starts_with("$SYS/")'''))
bug('b-dup', 'M03', (SR, ADD, '''        if node.clients.last() != Some(client_id) {
            node.clients.push(client_id.clone());
        }'''))
bug('b-trim', 'M02 M03', (SR, WALK_SUB, WALK_SUB.replace('subscription.topic().split("/")', 'subscription.topic().trim_end_matches("/").split("/")')))
bug('b-un-trim', 'M03', (SR, WALK_UN, WALK_UN.replace('topic.split("/")', 'topic.trim().split("/")')))
bug('b-splitn', 'M02 M03', (SR, WALK_SUB, WALK_SUB.replace('.split("/")', '.splitn(128, "/")')))
bug('b-skip-empty', 'M02', (SR, '''        let segments: Vec<&str> = topic.split("/").collect();
        for segment in segments {
            // nodes''', '''        let segments: Vec<&str> = topic.split("/").filter(|s| !s.is_empty()).collect();
        for segment in segments {
            // nodes'''))
bug('b-lowercase', 'M02', (SR, '''node.children.get(segment)''', '''node.children.get(&segment.to_lowercase())'''))
bug('b-rem-first-child', 'M03 L03', (SR, '''            nodes.extend(node.children.values_mut());''', '''            nodes.extend(node.children.values_mut().take(64));'''))
bug('b-rem-stop', 'M03 L03', (SR, REMALL, '''        let mut nodes = vec![node];
        while let Some(node) = nodes.pop() {
            if let Some(p) = node.clients.iter().position(|c| c == client_id) {
                node.clients.remove(p);
                continue;
            }
            nodes.extend(node.children.values_mut());
        }'''))
bug('b-rem-case', 'M03 L03', (SR, REMALL, REMALL.replace('c == client_id', 'c.eq_ignore_ascii_case(client_id)')))
bug('b-un-clear', 'M03', (SR, REM_UN, '''            node.clients.clear();
            // node'''))
bug('b-un-return', 'M03', (SR, REM_UN, '''            match node.clients.iter().position(|c| c == client_id) {
                Some(p) => { node.clients.remove(p); }
                None => return,
            }
            // node'''))
bug('b-un-prune', 'M03', (SR, REM_UN, REM_UN.replace('            // node', '''            if node.clients.is_empty() {
                node.children.clear();
            }
            // node''')))
bug('b-tail-dedup', 'M02 M03', (SR, '''        Some(client_ids)
''', '''        client_ids.truncate(256);
        Some(client_ids)
'''))
bug('b-tail-none', 'M02 M04', (SR, '''        Some(client_ids)
''', '''        if client_ids.len() > 1000 {
            return None;
        }
        Some(client_ids)
'''))
bug('b-tail-first', 'M02', (SR, TAIL, TAIL.replace('&node.clients)', 'node.clients.first())')))
bug('b-suback', 'M01 M03 C07', (SR, '''        SubAckReturnCode::SuccessQoS0
''', '''        if segment_count > 10 { SubAckReturnCode::Failure } else { SubAckReturnCode::SuccessQoS0 }
'''), (SR, '''        let mut node = &mut self.root;

        // subscription.topic().split("/").for_each(|x| {
        //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
        // });

        let segments: Vec<&str> = subscription''', '''        let segment_count = subscription.topic().split("/").count();
        let mut node = &mut self.root;
        let segments: Vec<&str> = subscription'''))
bug('b-recursive-drop', 'R01', (SR, '''        let mut nodes: Vec<_> = self.children.drain().map(|(_, node)| node).collect();
        while let Some(mut node) = nodes.pop() {
            nodes.extend(node.children.drain().map(|(_, node)| node));
        }''', '''        self.clients.clear();'''))
bug('b-recursive-remove', 'R01', (SR, REMALL, '''        node.clients.retain(|c| c != client_id);
        for child in node.children.values_mut() {
            Self::remove_client(child, client_id);
        }'''))
