#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo, on which the checks must stay quiet.
usage: refactors.py [round] [property ...]   (applies one round to /repo, runs the checks, undoes it)"""
import sys, subprocess, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, W, B = "src/core.rs", "src/word.rs", "src/bin/"
R = {}
R["1"] = [
 (C, "!text[..text.len() - 1].iter().any(|&x| x == 0),", "!text[..text.len() - 1].contains(&0),"),
 (C, """    let mut bwt = vec![text[0]; n];
    // let mut rsa = vec![0; n];
    for i in 0..n {
        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];
        // rsa[i] = (n + (sa[i] as usize)-1)  % n;
    }
    debug!""", """    let bwt: Vec<u8> = sa
        .iter()
        .map(|&s: &i32| if s == 0 { text[n - 1] } else { text[s as usize - 1] })
        .collect();
    debug!"""),
 (C, """    let mut indices = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        indices.push(i);
    }
    indices.sort_by(|a, b| -> std::cmp::Ordering {
        for i in 0..text.len() {
            let cmp = text[(a + i) % text.len()].cmp(&text[(b + i) % text.len()]);
            if cmp == std::cmp::Ordering::Equal {
                continue;
            }
            return cmp;
        }
        std::cmp::Ordering::Equal
    });
    let mut bwt = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        bwt.push(text[(indices[i] + text.len() - 1) % text.len()]);
    }
    bwt
""", """    let n = text.len();
    let rotation = |a: usize| text[a..].iter().chain(text[..a].iter());
    let mut indices: Vec<usize> = (0..n).collect();
    indices.sort_by(|&a, &b| rotation(a).cmp(rotation(b)));
    indices.into_iter().map(|i| text[(i + n - 1) % n]).collect()
"""),
 (C, """    let mut newtext = Vec::with_capacity(n);
    for letter in text[conjugate_start..n].iter() {
        newtext.push(*letter);
    }
    for letter in text[0..conjugate_start].iter() {
        newtext.push(*letter);
    }
    newtext.push(0u8);
    let mut bwt = bwt_from_text_by_sa(&newtext);
    bwt.remove(bwt.iter().position(|&x| x == 0).unwrap());
    bwt
""", """    let newtext = [&text[conjugate_start..], &text[..conjugate_start], &[0u8]].concat();
    let mut bwt = bwt_from_text_by_sa(&newtext);
    bwt.retain(|&x| x != 0);
    assert_eq!(bwt.len(), n);
    bwt
"""),
 (C, """    for x in 0..factors.len() - 1 {
        if factors[x + 1] + 1 >= n {
            return factors[x] + 1;
        }
    }
    unreachable!(); //should never happen
""", """    factors
        .windows(2)
        .find(|pair| pair[1] >= n - 1)
        .map(|pair| pair[0] + 1)
        .unwrap()
"""),
 (C, """    if period == text.len() {
        return true;
    }
    (text.len() % smallest_period(&border)) != 0
""", """    period == text.len() || text.len() % period != 0
"""),
 (C, """        while len < alen * blen {
            let char_a = text[a.lyndon_start + ((a.index + len) % alen)];
            let char_b = text[b.lyndon_start + ((b.index + len) % blen)];
            if char_a == char_b {
                len += 1;
                continue;
            }
            if char_a < char_b {
                return std::cmp::Ordering::Less;
            } else {
                return std::cmp::Ordering::Greater;
            }
        }
        std::cmp::Ordering::Equal
""", """        while len < alen + blen {
            let char_a = text[a.lyndon_start + ((a.index + len) % alen)];
            let char_b = text[b.lyndon_start + ((b.index + len) % blen)];
            match char_a.cmp(&char_b) {
                std::cmp::Ordering::Equal => len += 1,
                other => return other,
            }
        }
        std::cmp::Ordering::Equal
"""),
 (C, """    let mut sa = vec![0_usize; n];
    for (i, entry) in sa.iter_mut().enumerate() {
        *entry = i;
    }
    sa.sort_by(|a, b| {
        let asuffix = &text[*a..];
        let bsuffix = &text[*b..];
        asuffix.cmp(bsuffix)
    });
    sa
""", """    let mut sa: Vec<usize> = (0..n).collect();
    sa.sort_unstable_by_key(|&a| &text[a..]);
    sa
"""),
 (C, """    border.push(0);
    for i in 0..n {
        let mut length = border[i];
        while length > 0 && text[length - 1] != text[i] {
            length = border[length - 1];
        }
        border.push(length + 1);
    }
    for entry in border.iter_mut().skip(1) {
        *entry -= 1;
    }
    border
""", """    border.resize(std::cmp::min(2, n + 1), 0_usize);
    for i in 1..n {
        let mut length = border[i];
        let next = loop {
            if text[length] == text[i] {
                break length + 1;
            }
            if length == 0 {
                break 0;
            }
            length = border[length];
        };
        border.push(next);
    }
    border
"""),
 (C, "    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8", "    let mut bits = 0;\n    let mut rest = i;\n    while rest > 0 {\n        bits += 1;\n        rest >>= 1;\n    }\n    bits"),
 (C, """    for i in 1..sa.len() {
        phi[sa[i].as_()] = sa[i - 1];
    }
    phi[sa[0].as_()] = sa[sa.len() - 1];
    phi
""", """    let mut previous = *sa.last().unwrap();
    for &s in sa {
        phi[s.as_()] = previous;
        previous = s;
    }
    phi
"""),
 (C, """    for i in 0..arr.len() {
        inv[arr[i].as_()] = T::from_usize(i).unwrap();
    }
""", """    arr.iter().enumerate().for_each(|(i, x)| {
        let index: usize = x.as_();
        inv[index] = T::from_usize(i).unwrap();
    });
"""),
 (C, """    let mut lcp = vec![0; plcp.len()];
    for i in 0..lcp.len() {
        lcp[i] = plcp[sa[i].as_()]
    }
    lcp
""", """    sa.iter().map(|s| plcp[(*s).as_()]).collect()
"""),
 (C, """    let mut psv = vec![0; arr.len()];
    psv[0] = INVALID_VALUE;
    for i in 1..arr.len() {
        let mut p = i - 1;
        psv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                psv[i] = p as u32;
                break;
            }
            p = psv[p] as usize;
        }
    }
    psv
""", """    let mut psv = vec![INVALID_VALUE; arr.len()];
    let mut stack: Vec<usize> = Vec::new();
    for (i, value) in arr.iter().enumerate() {
        while let Some(&top) = stack.last() {
            if arr[top] < *value {
                psv[i] = top as u32;
                break;
            }
            stack.pop();
        }
        stack.push(i);
    }
    psv
"""),
 (C, """    nsv[arr.len() - 1] = INVALID_VALUE;
    for i in (0..arr.len() - 1).rev() {""", """    let last = arr.len() - 1;
    nsv[last] = INVALID_VALUE;
    for i in (0..last).rev() {"""),
 (C, """        while j != n && text[i] <= text[j] {
            if text[i] < text[j] {
                i = k;
            }
            if text[i] == text[j] {
                i += 1;
            }
            j += 1;
        }
        loop {
            assert_lt!(i, j);
            k += j - i;
            ending_positions.push(k - 1_usize);
            if k >= i {
                break;
            }
        }
""", """        while j < n {
            match text[i].cmp(&text[j]) {
                std::cmp::Ordering::Less => i = k,
                std::cmp::Ordering::Equal => i += 1,
                std::cmp::Ordering::Greater => break,
            }
            j += 1;
        }
        let period = j - i;
        while k <= i {
            k += period;
            ending_positions.push(k - 1_usize);
        }
"""),
 (C, """        let mut text = Vec::with_capacity(self.m_length as usize);
        for i in (0..self.m_length).rev() {
            let bit = self.m_rank.checked_shr(i as u32).unwrap_or(0) & 1;
            text.push(if bit == 0 { b'0' } else { b'1' });
        }
""", """        let width = self.m_length as usize;
        let text = if width == 0 {
            Vec::new()
        } else {
            format!("{:0>width$b}", self.m_rank, width = width).into_bytes()
        };
"""),
 (C, """        let mut ret = Vec::new();
        ret.reserve_exact(self.m_text.len());
        for i in self.m_pos..self.m_text.len() {
            ret.push(self.m_text[i]);
        }
        for i in 0..self.m_pos {
            ret.push(self.m_text[i]);
        }
""", """        let mut ret = self.m_text.to_vec();
        ret.rotate_left(self.m_pos);
"""),
 (C, """            loop {
                match io::next_char(reader) {
                    None => break,
                    Some(next_char) => {
                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;
                        }
                    }
                }
            }
            run_counter
""", """            while let Some(next_char) = io::next_char(reader) {
                run_counter += usize::from(next_char != prev_char);
                prev_char = next_char;
            }
            run_counter
"""),
 ("src/io.rs", """        let mut buffer = Vec::new();
        reader
            .take(prefix_length as u64)
            .read_to_end(&mut buffer)
            .unwrap();
        buffer
""", """        let mut buffer = Vec::with_capacity(prefix_length.min(1 << 16));
        let mut limited = reader.lock().take(prefix_length as u64);
        limited.read_to_end(&mut buffer).unwrap();
        buffer
"""),
 ("src/io.rs", """    let mut buffer = [0u8];
    loop {""", """    let mut buffer = vec![0u8; 1];
    loop {"""),
 (B + "count_lexparse.rs", """    while i < text.len() {
        //@ last character is a dummy character -> do not encode
        if plcp[i] == 0 {
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
            continue;
        }
        factors.push(LZFactor {
            len: plcp[i],
            pos: phi[i] as u32,
        });
        i += plcp[i] as usize;
    }
""", """    while i < text.len() {
        let len = plcp[i];
        let pos = match len {
            0 => u32::from(text[i]),
            _ => phi[i] as u32,
        };
        factors.push(LZFactor { pos, len });
        i += std::cmp::max(1, len) as usize;
    }
"""),
 (B + "count_lexparse.rs", """        for fact in factors {
            writer
                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap();
        }
""", """        let list: String = factors
            .iter()
            .map(|fact| format!("({},{})", fact.pos, fact.len))
            .collect::<Vec<_>>()
            .join("");
        writer.write_all(list.as_bytes()).unwrap();
"""),
 (B + "count_sigma.rs", """    let mut inc = 0_usize;
    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
    for c in text_iter {
        let index = *c as usize;
        if alphabet_to_reduced[index] == 0 {
            inc += 1;
            alphabet_to_reduced[index] = inc;
        }
    }
    inc
""", """    let mut seen = [false; 256];
    text_iter.for_each(|&c| seen[usize::from(c)] = true);
    seen.iter().filter(|&&s| s).count()
"""),
 (B + "count_z.rs", """        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };
        let max_pos = if prev_lcp < next_lcp {
            sa[nsv[sa_position] as usize]
        } else {
            sa[psv[sa_position] as usize]
        };
""", """        let (max_lcp, rank) = if prev_lcp < next_lcp {
            (next_lcp, nsv[sa_position])
        } else {
            (prev_lcp, psv[sa_position])
        };
        let max_pos = sa[rank as usize];
"""),
 (B + "entropy.rs", """    let mut sum = 0 as f64;
    for count in char_counters {
        if count > 0 {
            sum += (count as f64) * ((total_count as f64 / count as f64).log2());
        }
    }
    sum / (total_count as f64)
""", """    let total = total_count as f64;
    char_counters
        .into_iter()
        .filter(|&count| count != 0)
        .map(|count| count as f64)
        .fold(0_f64, |sum, count| sum + count * (total / count).log2())
        / total
"""),
 (B + "entropy.rs", """        let mut v: Vec<u8> = Vec::with_capacity(length);
        for savalue in sa.iter().skip(start).take(length) {
            let pos = *savalue as usize + k;
            if pos < text.len() {
                //@ for binary texts having 0 byte the 0 byte at the end can be matched with it!
                v.push(text[pos]);
            }
        }
""", """        let v: Vec<u8> = sa[start..start + length]
            .iter()
            .filter_map(|savalue| text.get(*savalue as usize + k).copied())
            .collect();
"""),
 (B + "entropy_kmer.rs", """        match kmers.get_mut(&kmer) {
            Some(val) => {
                *val += 1;
            }
            None => {
                kmers.insert(kmer, 1);
            }
        };
""", """        *kmers.entry(kmer).or_insert(0) += 1;
"""),
 (B + "enumerate.rs", "    let mut indices = vec![0usize; len];", "    let mut indices: Vec<usize> = std::iter::repeat(0).take(len).collect();"),
 (B + "escape.rs", """        for _ in 0..prefixlength {
            match io::next_char(&mut reader) {
                None => break,
                Some(cur_char) => {
                    if cur_char == args.escape_symbol {
                        let next_char""", """        let mut remaining = prefixlength;
        while remaining > 0 {
            remaining -= 1;
            match io::next_char(&mut reader) {
                None => break,
                Some(cur_char) => {
                    if cur_char == args.escape_symbol {
                        let next_char"""),
 (B + "escape.rs", """                    match char_mapping.get(&cur_char) {
                        Some(remapped_char) => {
                            writer.write_all(&[args.escape_symbol, *remapped_char])
                        }
                        None => writer.write_all(&[cur_char]),
                    }
                    .unwrap();
""", """                    let out = if let Some(remapped_char) = char_mapping.get(&cur_char) {
                        vec![args.escape_symbol, *remapped_char]
                    } else {
                        vec![cur_char]
                    };
                    writer.write_all(&out).unwrap();
"""),
 (B + "is_stringattractor.rs", """        for s in attractor.iter() {
            v.set_bit(*s, true);
        }
        v
""", """        attractor.iter().for_each(|&s| v.set_bit(s, true));
        v
"""),
 (B + "mtf.rs", """                for j in 0..pos {
                    mtfvector[pos - j] = mtfvector[pos - j - 1];
                }
                mtfvector[0] = cur_char;
""", """                mtfvector.copy_within(0..pos, 1);
                mtfvector[0] = cur_char;
"""),
 (B + "mus.rs", """        if isai + 1 == sa.len() {
            lcp[isai] as usize
        } else {
            std::cmp::max(lcp[isai], lcp[isa[i] as usize + 1]) as usize
        }
""", """        let next = lcp.get(isai + 1).copied().unwrap_or(0);
        lcp[isai].max(next) as usize
"""),
 (B + "randomstring.rs", """        let mut newchar = rng.sample(Alphanumeric);
        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {
            while !charset.contains(&newchar) {
                newchar = rng.sample(Alphanumeric);
            }
        }
        charset.insert(newchar);
""", """        let newchar = loop {
            let candidate = rng.sample(Alphanumeric);
            let full = args.alphabet_size != 0 && charset.len() == args.alphabet_size;
            if !full || charset.contains(&candidate) {
                break candidate;
            }
        };
        charset.insert(newchar);
"""),
 (B + "reverse.rs", "    let mut text =\n", "    let text =\n"),
 (B + "reverse.rs", """    text.reverse();
    writer.write_all(text.as_slice()).unwrap();
""", """    let reversed: Vec<u8> = text.into_iter().rev().collect();
    writer.write_all(&reversed).unwrap();
"""),
 (B + "rle.rs", """                        if next_char != prev_char || run_counter == u8::MAX {
                            writer.write_all(&[prev_char, run_counter]).unwrap();
                            prev_char = next_char;
                            run_counter = 0;
                        } else {
                            run_counter += 1;
                        }
""", """                        if next_char == prev_char && run_counter < u8::MAX {
                            run_counter += 1;
                            continue;
                        }
                        writer.write_all(&[prev_char, run_counter]).unwrap();
                        prev_char = next_char;
                        run_counter = 0;
"""),
 (B + "lyndonwords.rs", """        let out: Vec<u8> = it.iter().map(|x| x + b'a').collect::<Vec<u8>>();
        writer.write_all(&out).unwrap();
        writer.write_all(b"\\n").unwrap();
""", """        let mut out: Vec<u8> = it;
        out.iter_mut().for_each(|x| *x += b'a');
        out.push(b'\\n');
        writer.write_all(&out).unwrap();
"""),
 (W, """    for j in 0..k {
        let powerj = 1 << j;
        for k in 0..powerj {
            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };
        }
    }
""", """    for i in 1..n {
        text[i] = if i.count_ones() % 2 == 0 { CHR_A } else { CHR_B };
    }
"""),
 (W, """    let [mut sum, mut cur, mut old] = [1, 1, 0];
    for _ in 0..k + 1 {
        sum = cur + old;
        old = cur;
        cur = sum;
    }
    sum
""", """    (0..=k).fold((1, 0), |(cur, old), _| (cur + old, cur)).0
"""),
 (W, """        for start_char in oldtext {
            for c in morphism(start_char) {
                text.push(*c);
            }
        }
        oldtext = text;
        text = Vec::new()
""", """        text = oldtext.iter().flat_map(|&c| morphism(c).iter().copied()).collect();
        std::mem::swap(&mut oldtext, &mut text);
"""),
 (W, """    let mut i = 0;
    let mut j = 1;
    while j != n && text.index(i) <= text.index(j) {
        if text.index(i) < text.index(j) {
            i = 0;
        }
        if text.index(i) == text.index(j) {
            i += 1;
        }
        j += 1;
    }
    if j != n {
        return false;
    }
    true
""", """    let mut i = 0;
    for j in 1..n {
        let (x, y) = (text[i], text[j]);
        if x > y {
            return false;
        }
        i = if x == y { i + 1 } else { 0 };
    }
    true
"""),
]


R["2"] = [
 (C, """    let mut bwt = vec![text[0]; n];
    // let mut rsa = vec![0; n];
    for i in 0..n {
        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];
        // rsa[i] = (n + (sa[i] as usize)-1)  % n;
    }
    debug!""", """    fn preceding(text: &[u8], position: usize) -> u8 {
        match position.checked_sub(1) {
            Some(before) => text[before],
            None => *text.last().unwrap(),
        }
    }
    let mut bwt = Vec::with_capacity(n);
    for &suffix in sa.iter() {
        bwt.push(preceding(text, suffix as usize));
    }
    debug!"""),
 (C, """    let mut indices = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        indices.push(i);
    }
    indices.sort_by(|a, b| -> std::cmp::Ordering {
        for i in 0..text.len() {
            let cmp = text[(a + i) % text.len()].cmp(&text[(b + i) % text.len()]);
            if cmp == std::cmp::Ordering::Equal {
                continue;
            }
            return cmp;
        }
        std::cmp::Ordering::Equal
    });
    let mut bwt = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        bwt.push(text[(indices[i] + text.len() - 1) % text.len()]);
    }
    bwt
""", """    let mut rotations: Vec<Vec<T>> = Vec::new();
    for i in 0..text.len() {
        let mut rotation = text[i..].to_vec();
        rotation.extend_from_slice(&text[..i]);
        rotations.push(rotation);
    }
    rotations.sort();
    rotations.iter().map(|r| *r.last().unwrap()).collect()
"""),
 (C, """    bwt.remove(bwt.iter().position(|&x| x == 0).unwrap());
    bwt
""", """    if let Some(dollar) = bwt.iter().position(|&x| x == 0) {
        let tail = bwt.split_off(dollar);
        bwt.extend(tail.into_iter().skip(1));
    }
    bwt
"""),
 (C, """    let mut doubletext = Vec::new();
    doubletext.extend_from_slice(text);
    doubletext.extend_from_slice(text); //@ TODO: instead of doubling the text, we could write a wrapper around the text

    let mut factors = duval(&doubletext);
    factors.push(2 * n);
    if factors[0] + 1 == n {
        return 0;
    } //@ if the first factor ends at position n, we are done
    for x in 0..factors.len() - 1 {
        if factors[x + 1] + 1 >= n {
            return factors[x] + 1;
        }
    }
    unreachable!(); //should never happen
""", """    let doubletext = text.repeat(2);
    let factors = duval(&doubletext);
    if factors[0] + 1 == n {
        return 0;
    }
    let mut start = factors[0] + 1;
    for &end in factors.iter().skip(1) {
        if end + 1 >= n {
            break;
        }
        start = end + 1;
    }
    start
"""),
 (C, """    let border = border_array(text);
    let period = smallest_period(&border);
    if period == text.len() {
        return true;
    }
    (text.len() % smallest_period(&border)) != 0
""", """    fn divides(a: usize, b: usize) -> bool {
        b % a == 0
    }
    let period = smallest_period(&border_array(text));
    if period < text.len() {
        !divides(period, text.len())
    } else {
        true
    }
"""),
 (C, """    // if factors[0] > 0 {
    for j in 0..factors[0] + 1 {
        conjugates.push(Conjugate {
            index: j,
            lyndon_start: 0,
            lyndon_end: factors[0],
        });
    }
    // }

    for factor in 0..factors.len() - 1 {
        for j in factors[factor] + 1..factors[factor + 1] + 1 {
            conjugates.push(Conjugate {
                index: j - factors[factor] - 1,
                lyndon_start: factors[factor] + 1,
                lyndon_end: factors[factor + 1],
            });
        }
    }
""", """    let mut lyndon_start = 0;
    for &lyndon_end in &factors {
        conjugates.extend((0..=lyndon_end - lyndon_start).map(|index| Conjugate {
            index,
            lyndon_start,
            lyndon_end,
        }));
        lyndon_start = lyndon_end + 1;
    }
"""),
 (C, """    let mut bbwt = vec![text[0]; n];
    for i in 0..n {
        let position = if conjugates[i].index == 0 {
            conjugates[i].lyndon_end
        } else {
            conjugates[i].lyndon_start + conjugates[i].index - 1
        };
        bbwt[i] = text[position];
    }
    bbwt
""", """    let last_letter = |c: &Conjugate| {
        let length = c.lyndon_end - c.lyndon_start + 1;
        text[c.lyndon_start + (c.index + length - 1) % length]
    };
    conjugates.iter().map(last_letter).collect()
"""),
 (C, """    sa.sort_by(|a, b| {
        let asuffix = &text[*a..];
        let bsuffix = &text[*b..];
        asuffix.cmp(bsuffix)
    });
    sa
""", """    //@ insertion sort from the shortest suffix on
    sa.clear();
    for i in (0..n).rev() {
        let rank = sa.partition_point(|&s| text[s..] < text[i..]);
        sa.insert(rank, i);
    }
    sa
"""),
 (C, """    for i in 0..n {
        let mut length = border[i];
        while length > 0 && text[length - 1] != text[i] {
            length = border[length - 1];
        }
        border.push(length + 1);
    }
    for entry in border.iter_mut().skip(1) {
        *entry -= 1;
    }
    border
""", """    for i in 0..n {
        let mut length = border[i];
        loop {
            if length == 0 || text[length - 1] == text[i] {
                border.push(1 + length);
                break;
            }
            length = border[length - 1];
        }
    }
    (0..=n).for_each(|i| border[i] = border[i].saturating_sub(1));
    border
"""),
 (C, "    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8", "    match i {\n        0 => 0,\n        _ => i.ilog2() as u8 + 1,\n    }"),
 (C, """    for i in 1..sa.len() {
        phi[sa[i].as_()] = sa[i - 1];
    }
    phi[sa[0].as_()] = sa[sa.len() - 1];
    phi
""", """    let n = sa.len();
    for (rank, suffix) in sa.iter().enumerate() {
        phi[(*suffix).as_()] = sa[(rank + n - 1) % n];
    }
    phi
"""),
 (C, """    let mut plcp = vec![0; text.len()];
    let mut length: usize = 0;
    for position_b in 0..text.len() {
        let position_a = phi[position_b] as usize;""", """    fn common(x: &[u8], y: &[u8]) -> usize {
        x.iter().zip(y).take_while(|(a, b)| a == b).count()
    }
    let mut plcp = vec![0; text.len()];
    let mut length: usize = 0;
    for position_b in 0..text.len() {
        let position_a = phi[position_b] as usize;
        if position_a + length < text.len() && position_b + length < text.len() {
            length += common(&text[position_a + length..], &text[position_b + length..]);
        }"""),
 (C, """    let mut lcp = vec![0; plcp.len()];
    for i in 0..lcp.len() {
        lcp[i] = plcp[sa[i].as_()]
    }
    lcp
""", """    let mut lcp = Vec::new();
    for &suffix in sa {
        let index: usize = suffix.as_();
        lcp.push(plcp[index]);
    }
    lcp
"""),
 (C, """    let mut nsv = vec![0; arr.len()];
    nsv[arr.len() - 1] = INVALID_VALUE;
    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                nsv[i] = p as u32;
                break;
            }
            p = nsv[p] as usize;
        }
    }
    nsv
""", """    let mut nsv = vec![INVALID_VALUE; arr.len()];
    for i in 0..arr.len() {
        if let Some(distance) = arr[i..].iter().position(|x| *x < arr[i]) {
            nsv[i] = (i + distance) as u32;
        }
    }
    nsv
"""),
 (C, """        loop {
            assert_lt!(i, j);
            k += j - i;
            ending_positions.push(k - 1_usize);
            if k >= i {
                break;
            }
        }
""", """        assert_lt!(i, j);
        let factor_length = j - i;
        k += factor_length;
        ending_positions.push(k - 1_usize);
        while k < i {
            k += factor_length;
            ending_positions.push(k - 1_usize);
        }
"""),
 (C, """    let mut k = 0;
    let mut current_val = isa[k];
    let n = isa.len();
    k += 1;
    while k < n {
        if isa[k] < current_val {
            ending_positions.push(k - 1_usize);
            current_val = isa[k];
        }
        k += 1;
    }
""", """    let n = isa.len();
    let mut smallest = isa[0];
    for (k, &rank) in isa.iter().enumerate() {
        if rank < smallest {
            ending_positions.push(k - 1_usize);
        }
        smallest = std::cmp::min(smallest, rank);
    }
"""),
 (C, """        while stack.len() < self.m_length {
            //@ repeat word to fill exactly n syms
            stack.push(stack[stack.len() - current_length]);
        }

        //@ delete trailing z's
        while !stack.is_empty() && *stack.last().unwrap() as usize == self.m_alphabet_size - 1 {
            stack.pop();
        }
""", """        let word: Vec<u8> = stack.drain(..).collect();
        stack.extend(word.iter().cycle().take(std::cmp::max(self.m_length, current_length)));

        //@ delete trailing z's
        while let Some(&last) = stack.last() {
            if usize::from(last) + 1 != self.m_alphabet_size {
                break;
            }
            stack.pop();
        }
"""),
 (C, """            loop {
                match io::next_char(reader) {
                    None => break,
                    Some(next_char) => {
                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;
                        }
                    }
                }
            }
            run_counter
""", """            std::iter::from_fn(|| io::next_char(reader)).for_each(|next_char| {
                if std::mem::replace(&mut prev_char, next_char) != next_char {
                    run_counter += 1;
                }
            });
            run_counter
"""),
 ("src/io.rs", """    let mut buffer = vec![0; buffer_length as usize];
    f.read_exact(&mut buffer).unwrap();
""", """    let mut buffer = Vec::new();
    f.take(buffer_length).read_to_end(&mut buffer).unwrap();
    assert_eq!(buffer.len() as u64, buffer_length);
"""),
 ("src/io.rs", "    let mut f = fs::File", "    let f = fs::File"),
 ("src/io.rs", """        None => Box::new(std::io::stdin()) as Box<dyn std::io::Read>,
""", """        None => Box::new(std::io::stdin().lock()) as Box<dyn std::io::Read>,
"""),
 ("src/io.rs", """            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>
""", """            let file = std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(true)
                .open(path)
                .unwrap();
            Box::new(file) as Box<dyn std::io::Write>
"""),
 (B + "count_lexparse.rs", """        if plcp[i] == 0 {
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
            continue;
        }
        factors.push(LZFactor {
            len: plcp[i],
            pos: phi[i] as u32,
        });
        i += plcp[i] as usize;
""", """        let (factor, step) = next_factor(i, text, plcp, phi);
        factors.push(factor);
        i += step;
"""),
 (B + "count_lexparse.rs", "fn compute_lexparse(", """fn next_factor(i: usize, text: &[u8], plcp: &[u32], phi: &[i32]) -> (LZFactor, usize) {
    if plcp[i] > 0 {
        let len = plcp[i];
        let pos = phi[i] as u32;
        return (LZFactor { len, pos }, len as usize);
    }
    let pos = text[i] as u32;
    (LZFactor { len: 0, pos }, 1)
}

fn compute_lexparse("""),
 (B + "count_sigma.rs", """    let mut inc = 0_usize;
    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
    for c in text_iter {
        let index = *c as usize;
        if alphabet_to_reduced[index] == 0 {
            inc += 1;
            alphabet_to_reduced[index] = inc;
        }
    }
    inc
""", """    let mut letters = Vec::new();
    for c in text_iter {
        if !letters.contains(c) {
            letters.push(*c);
        }
    }
    letters.len()
"""),
 (B + "count_z.rs", """        if prev_lcp == 0 && next_lcp == 0 {
            // assert!(false); // should not happen
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
            continue;
        }
        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };
        let max_pos = if prev_lcp < next_lcp {
            sa[nsv[sa_position] as usize]
        } else {
            sa[psv[sa_position] as usize]
        };
""", """        let max_lcp = std::cmp::max(prev_lcp, next_lcp);
        if max_lcp == 0 {
            let pos = u32::from(text[i]);
            factors.push(LZFactor { len: 0, pos });
            i += 1;
            continue;
        }
        let source = if max_lcp == prev_lcp { psv } else { nsv };
        let max_pos = sa[source[sa_position] as usize];
"""),
 (B + "count_z.rs", """        for fact in factors {
            writer
                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap();
        }
""", """        for LZFactor { len, pos } in factors {
            write!(writer, "({},{})", pos, len).unwrap();
        }
"""),
 (B + "entropy.rs", """    let mut sum = 0 as f64;
    for count in char_counters {
        if count > 0 {
            sum += (count as f64) * ((total_count as f64 / count as f64).log2());
        }
    }
    sum / (total_count as f64)
""", """    let mut sum = 0.0;
    let total = total_count as f64;
    for letter in 0..char_counters.len() {
        let count = char_counters[letter] as f64;
        if count != 0.0 {
            let ratio = total / count;
            sum += count * ratio.log2();
        }
    }
    sum / total
"""),
 (B + "entropy.rs", """    for (lcpindex, lcpvalue) in lcp.iter().enumerate() {
        if contextcount > 0 && (*lcpvalue as usize) < k {
            assert_gt!(lcpindex, 0);
            sum += compute_context(lcpindex - contextcount - 1, contextcount + 1);
            contextcount = 0;
            continue;
        }
        if (*lcpvalue as usize) >= k {
            contextcount += 1;
        }
    }
""", """    for lcpindex in 0..lcp.len() {
        let same_context = lcp[lcpindex] as usize >= k;
        if same_context {
            contextcount += 1;
        } else if contextcount > 0 {
            assert_gt!(lcpindex, 0);
            sum += compute_context(lcpindex - contextcount - 1, contextcount + 1);
            contextcount = 0;
        }
    }
"""),
 (B + "entropy_kmer.rs", """            match kplusmers.get_mut(&kplusmer) {
                Some(val) => {
                    *val += 1;
                }
                None => {
                    kplusmers.insert(kplusmer, 1);
                }
            };
""", """            let seen = kplusmers.get(&kplusmer).copied().unwrap_or(0);
            kplusmers.insert(kplusmer, seen + 1);
"""),
 (B + "entropy_kmer.rs", """    for length in 0..order {
        ringbuf <<= 8;
        ringbuf |= match text_iter.next() {
            Some(byte) => byte.unwrap() as u64,
            //@ no k-mer occurs in a text shorter than k
            None => return (0.0, length),
        };
    }
    let mut count = order;
""", """    let mut count = 0;
    for byte in text_iter.by_ref().take(order) {
        ringbuf = ringbuf * 256 + u64::from(byte.unwrap());
        count += 1;
    }
    if count < order {
        return (0.0, count);
    }
"""),
 (B + "enumerate.rs", """        let mut s = String::with_capacity(len);
        for &i in &indices {
            s.push((b'a' + (i as u8)) as char);
        }
        println!("{}", s);

        // increment
        let mut pos = len as isize - 1;
        while pos >= 0 {
            if indices[pos as usize] + 1 < alpha_size {
                indices[pos as usize] += 1;
                break;
            } else {
                indices[pos as usize] = 0;
                pos -= 1;
            }
        }
        if pos < 0 {
            break;
        } // overflow -> finished
""", """        let s: String = indices.iter().map(|&i| char::from(b'a' + i as u8)).collect();
        println!("{}", s);

        match (0..len).rev().find(|&pos| indices[pos] + 1 < alpha_size) {
            None => break,
            Some(pos) => {
                indices[pos] += 1;
                indices[pos + 1..].iter_mut().for_each(|i| *i = 0);
            }
        }
"""),
 (B + "escape.rs", """                    if cur_char == args.escape_symbol {
                        writer
                            .write_all(&[args.escape_symbol, args.escape_symbol])
                            .unwrap();
                        continue;
                    }
                    match char_mapping.get(&cur_char) {
                        Some(remapped_char) => {
                            writer.write_all(&[args.escape_symbol, *remapped_char])
                        }
                        None => writer.write_all(&[cur_char]),
                    }
                    .unwrap();
""", """                    if cur_char == args.escape_symbol || char_mapping.contains_key(&cur_char) {
                        writer.write_all(&[args.escape_symbol]).unwrap();
                    }
                    let mapped = *char_mapping.get(&cur_char).unwrap_or(&cur_char);
                    writer.write_all(&[mapped]).unwrap();
"""),
 (B + "escape.rs", """            let mut char_mapping = HashMap::new();
            for i in 0..args.from_symbols.len() {
                char_mapping.insert(args.from_symbols[i], args.to_symbols[i]);
            }
            char_mapping
""", """            let pairs = args.from_symbols.iter().zip(args.to_symbols.iter());
            pairs.map(|(&from, &to)| (from, to)).collect::<HashMap<u8, u8>>()
"""),
 (B + "is_stringattractor.rs", """    for i in 1..n {
        let mut child_ptr: Option<Rc<RefCell<LCPInterval>>> = None;
""", """    for (i, _) in lcp.iter().enumerate().skip(1) {
        let mut child_ptr: Option<Rc<RefCell<LCPInterval>>> = None;
"""),
 (B + "mtf.rs", """    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
    loop {
        match io::next_char(&mut reader) {
            None => break,
            Some(cur_char) => {
                let pos = mtfvector.iter().position(|&c| c == cur_char).unwrap();
                for j in 0..pos {
                    mtfvector[pos - j] = mtfvector[pos - j - 1];
                }
                mtfvector[0] = cur_char;
                writer.write_all(&[pos as u8]).unwrap();
            }
        }
    }
""", """    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
    while let Some(cur_char) = io::next_char(&mut reader) {
        let mut pos = 0;
        while mtfvector[pos] != cur_char {
            pos += 1;
        }
        mtfvector[..=pos].rotate_right(1);
        writer.write_all(&[pos as u8]).unwrap();
    }
"""),
 (B + "mus.rs", """        let elli = getlength(i);
        assert!(""", """        let nextell = getlength(i + 1);
        let elli = getlength(i);
        assert!("""),
 (B + "mus.rs", """        if elli + i >= n {
            continue;
        }
        let nextell = getlength(i + 1);
        if elli <= nextell {
            mus.push((i, elli + 1));
        }
""", """        if elli + i < n && elli < nextell + 1 {
            mus.push((i, elli + 1));
        }
"""),
 (B + "randomstring.rs", "    let mut charset = HashSet::new();\n", "    let mut charset: HashSet<u8> = HashSet::with_capacity(64);\n"),
 (B + "randomstring.rs", """            while !charset.contains(&newchar) {
                newchar = rng.sample(Alphanumeric);
            }
""", """            loop {
                if charset.contains(&newchar) {
                    break;
                }
                newchar = rng.sample(Alphanumeric);
            }
"""),
 (B + "rle.rs", """            loop {
                match io::next_char(&mut reader) {
                    None => break,
                    Some(next_char) => {
                        //@ a run that is too long for the counter is split
                        if next_char != prev_char || run_counter == u8::MAX {
                            writer.write_all(&[prev_char, run_counter]).unwrap();
                            prev_char = next_char;
                            run_counter = 0;
                        } else {
                            run_counter += 1;
                        }
                    }
                }
            }
            writer.write_all(&[prev_char, run_counter]).unwrap();
""", """            while let Some(next_char) = io::next_char(&mut reader) {
                //@ a run that is too long for the counter is split
                run_counter = match run_counter.checked_add(1) {
                    Some(longer) if next_char == prev_char => longer,
                    _ => {
                        writer.write_all(&[prev_char]).unwrap();
                        writer.write_all(&[run_counter]).unwrap();
                        0
                    }
                };
                prev_char = next_char;
            }
            writer.write_all(&[prev_char, run_counter]).unwrap();
"""),
 (W, """    let [mut sum, mut cur, mut old] = [1, 1, 0];
    for _ in 0..k + 1 {
        sum = cur + old;
        old = cur;
        cur = sum;
    }
    sum
""", """    let mut pair = (1, 1);
    for _ in 0..k {
        pair = (pair.1, pair.0 + pair.1);
    }
    pair.1
"""),
 (W, """    text[0] = CHR_A;
    for j in 0..k {
        let powerj = 1 << j;
        for k in 0..powerj {
            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };
        }
    }
    text
""", """    text.clear();
    text.push(CHR_A);
    for _ in 0..k {
        let flipped: Vec<u8> = text.iter().map(|&c| CHR_A + CHR_B - c).collect();
        text.extend(flipped);
    }
    text
"""),
 (W, """        for c in morphism(text[source_pos]) {
            text[target_pos] = *c;
            target_pos += 1;
            if target_pos == n {
                break;
            }
        }
        source_pos += 1;
    }
    text
""", """        let image = morphism(text[source_pos]);
        let fits = std::cmp::min(image.len(), n - target_pos);
        text[target_pos..target_pos + fits].copy_from_slice(&image[..fits]);
        target_pos += fits;
        source_pos += 1;
    }
    text
"""),
]

R["3"] = [
 # helper extraction
 (C, """pub fn bwt_from_text_by_sa(text: &Vec<u8>) -> Vec<u8> {""", """/// the letter before a position of a circular text
fn circular_predecessor<T: Copy>(text: &[T], position: usize) -> T {
    match position.checked_sub(1) {
        Some(previous) => text[previous],
        None => *text.last().unwrap(),
    }
}

fn has_inner_zero(text: &[u8]) -> bool {
    for position in 1..text.len() {
        if text[position - 1] == 0 {
            return true;
        }
    }
    false
}

pub fn bwt_from_text_by_sa(text: &Vec<u8>) -> Vec<u8> {"""),
 (C, "        !text[..text.len() - 1].iter().any(|&x| x == 0),", "        !has_inner_zero(text),"),
 (C, """    let mut bwt = vec![text[0]; n];
    // let mut rsa = vec![0; n];
    for i in 0..n {
        bwt[i] = text[(n + (sa[i] as usize) - 1) % n];
        // rsa[i] = (n + (sa[i] as usize)-1)  % n;
    }
    debug!""", """    let mut bwt = Vec::with_capacity(n);
    for suffix in &sa {
        bwt.push(circular_predecessor(text, *suffix as usize));
    }
    debug!"""),
 (C, """    indices.sort_by(|a, b| -> std::cmp::Ordering {
        for i in 0..text.len() {
            let cmp = text[(a + i) % text.len()].cmp(&text[(b + i) % text.len()]);
            if cmp == std::cmp::Ordering::Equal {
                continue;
            }
            return cmp;
        }
        std::cmp::Ordering::Equal
    });
    let mut bwt = Vec::with_capacity(text.len());
    for i in 0..text.len() {
        bwt.push(text[(indices[i] + text.len() - 1) % text.len()]);
    }
    bwt
""", """    indices.sort_by_cached_key(|&start| {
        let mut rotation = text.to_vec();
        rotation.rotate_left(start);
        rotation
    });
    indices
        .iter()
        .map(|&start| circular_predecessor(text, start))
        .collect()
"""),
 (C, """    let period = smallest_period(&border);
    if period == text.len() {
        return true;
    }
    (text.len() % smallest_period(&border)) != 0
""", """    match smallest_period(&border) {
        period if period == text.len() => true,
        period => text.len() - text.len() / period * period > 0,
    }
"""),
 (C, """    // if factors[0] > 0 {
    for j in 0..factors[0] + 1 {
        conjugates.push(Conjugate {
            index: j,
            lyndon_start: 0,
            lyndon_end: factors[0],
        });
    }
    // }

    for factor in 0..factors.len() - 1 {
        for j in factors[factor] + 1..factors[factor + 1] + 1 {
            conjugates.push(Conjugate {
                index: j - factors[factor] - 1,
                lyndon_start: factors[factor] + 1,
                lyndon_end: factors[factor + 1],
            });
        }
    }
    assert_eq!""", """    let mut lyndon_start = 0;
    for &lyndon_end in &factors {
        conjugates.extend((0..=lyndon_end - lyndon_start).map(|index| Conjugate {
            index,
            lyndon_start,
            lyndon_end,
        }));
        lyndon_start = lyndon_end + 1;
    }
    assert_eq!"""),
 (C, """        let mut len = 0;
        let alen = 1 + a.lyndon_end - a.lyndon_start;
        let blen = 1 + b.lyndon_end - b.lyndon_start;
        while len < alen * blen {
            let char_a = text[a.lyndon_start + ((a.index + len) % alen)];
            let char_b = text[b.lyndon_start + ((b.index + len) % blen)];
            if char_a == char_b {
                len += 1;
                continue;
            }
            if char_a < char_b {
                return std::cmp::Ordering::Less;
            } else {
                return std::cmp::Ordering::Greater;
            }
        }
        std::cmp::Ordering::Equal
""", """        let letters = |c: &Conjugate| {
            text[c.lyndon_start..=c.lyndon_end]
                .iter()
                .cycle()
                .skip(c.index)
        };
        let length = |c: &Conjugate| 1 + c.lyndon_end - c.lyndon_start;
        letters(a)
            .zip(letters(b))
            .take(length(a) * length(b))
            .map(|(x, y)| x.cmp(y))
            .find(|o| o.is_ne())
            .unwrap_or(std::cmp::Ordering::Equal)
"""),
 (C, """    let n = text.len();
    let mut border = Vec::with_capacity(n + 1);
    border.push(0);
    for i in 0..n {
        let mut length = border[i];
        while length > 0 && text[length - 1] != text[i] {
            length = border[length - 1];
        }
        border.push(length + 1);
    }
    for entry in border.iter_mut().skip(1) {
        *entry -= 1;
    }
    border
""", """    let mut border = vec![0; text.len() + 1];
    let mut length = 0;
    for i in 1..text.len() {
        loop {
            if text[length] == text[i] {
                length += 1;
                break;
            }
            if length == 0 {
                break;
            }
            length = border[length];
        }
        border[i + 1] = length;
    }
    border
"""),
 (C, """    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8
""", """    (usize::BITS - i.leading_zeros()) as u8
"""),
 (C, """        while position_a + length < text.len()
            && position_b + length < text.len()
            && text[position_a + length] == text[position_b + length]
        {
            length += 1;
        }
""", """        let rest_a = text[position_a..].iter().skip(length);
        let rest_b = text[position_b..].iter().skip(length);
        length += rest_a.zip(rest_b).take_while(|(a, b)| a == b).count();
"""),
 (C, """    let mut psv = vec![0; arr.len()];
    psv[0] = INVALID_VALUE;
    for i in 1..arr.len() {
        let mut p = i - 1;
        psv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                psv[i] = p as u32;
                break;
            }
            p = psv[p] as usize;
        }
    }
    psv
""", """    assert!(!arr.is_empty());
    let mut psv = Vec::with_capacity(arr.len());
    let mut stack: Vec<usize> = Vec::new();
    for (i, value) in arr.iter().enumerate() {
        while stack.last().is_some_and(|&p| arr[p] >= *value) {
            stack.pop();
        }
        psv.push(stack.last().map_or(INVALID_VALUE, |&p| p as u32));
        stack.push(i);
    }
    psv
"""),
 (C, """    let mut nsv = vec![0; arr.len()];
    nsv[arr.len() - 1] = INVALID_VALUE;
    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                nsv[i] = p as u32;
                break;
            }
            p = nsv[p] as usize;
        }
    }
    nsv
""", """    assert!(!arr.is_empty());
    let mut nsv = vec![INVALID_VALUE; arr.len()];
    let mut waiting: Vec<usize> = Vec::new();
    for i in 0..arr.len() {
        while let Some(&w) = waiting.last() {
            if arr[w] > arr[i] {
                nsv[w] = i as u32;
                waiting.pop();
            } else {
                break;
            }
        }
        waiting.push(i);
    }
    nsv
"""),
 (C, """        while j != n && text[i] <= text[j] {
            if text[i] < text[j] {
                i = k;
            }
            if text[i] == text[j] {
                i += 1;
            }
            j += 1;
        }
        loop {
            assert_lt!(i, j);
            k += j - i;
            ending_positions.push(k - 1_usize);
            if k >= i {
                break;
            }
        }
""", """        while j != n {
            match text[i].cmp(&text[j]) {
                std::cmp::Ordering::Less => i = k,
                std::cmp::Ordering::Equal => {}
                std::cmp::Ordering::Greater => break,
            }
            if text[i] == text[j] {
                i += 1;
            }
            j += 1;
        }
        assert_lt!(i, j);
        let period = j - i;
        while {
            k += period;
            ending_positions.push(k - 1);
            k < i
        } {}
"""),
 (C, """        let current_length = stack.len();
        while stack.len() < self.m_length {
            //@ repeat word to fill exactly n syms
            stack.push(stack[stack.len() - current_length]);
        }

        //@ delete trailing z's
        while !stack.is_empty() && *stack.last().unwrap() as usize == self.m_alphabet_size - 1 {
            stack.pop();
        }
        if stack.is_empty() {
            self.m_length = 0; //@ prevent from re-initialization by making this iterator invalid
            return None;
        }
        *stack.last_mut().unwrap() += 1; //@ increment the last non-z symbol
        Some(stack.clone())
""", """        let word = stack.clone();
        let mut next: Vec<u8> = word.iter().cycle().take(self.m_length.max(word.len())).copied().collect();
        loop {
            match next.pop() {
                Some(letter) if letter as usize == self.m_alphabet_size - 1 => {}
                Some(letter) => {
                    next.push(letter + 1);
                    *stack = next;
                    return Some(stack.to_vec());
                }
                None => {
                    stack.clear();
                    self.m_length = 0;
                    return None;
                }
            }
        }
"""),
 (C, """        let mut ret = Vec::new();
        ret.reserve_exact(self.m_text.len());
        for i in self.m_pos..self.m_text.len() {
            ret.push(self.m_text[i]);
        }
        for i in 0..self.m_pos {
            ret.push(self.m_text[i]);
        }
        self.m_pos += 1;
        Some(ret)
""", """        let (head, tail) = self.m_text.split_at(self.m_pos);
        self.m_pos += 1;
        Some(tail.iter().chain(head).copied().collect())
"""),
 (C, """    match io::next_char(reader) {
        None => 0,
        Some(first_char) => {
            let mut run_counter = 1; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            loop {
                match io::next_char(reader) {
                    None => break,
                    Some(next_char) => {
                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;
                        }
                    }
                }
            }
            run_counter
        }
    }
""", """    let mut run_counter = 0;
    let mut prev_char = None;
    for byte in std::io::Read::bytes(reader) {
        let next_char = byte.unwrap();
        if prev_char.replace(next_char) != Some(next_char) {
            run_counter += 1;
        }
    }
    run_counter
"""),
 ("src/io.rs", """    let mut buffer = vec![0; buffer_length as usize];
    f.read_exact(&mut buffer).unwrap();
""", """    let mut buffer = Vec::with_capacity(buffer_length as usize);
    f.by_ref()
        .take(buffer_length)
        .read_to_end(&mut buffer)
        .unwrap();
    assert_eq!(buffer.len() as u64, buffer_length);
"""),
 ("src/io.rs", """    let mut reader = std::io::stdin();
    // let reader = stdin.lock();
    if prefix_length > 0 {
        let mut buffer = Vec::new();
        reader
            .take(prefix_length as u64)
            .read_to_end(&mut buffer)
            .unwrap();
        buffer
    } else {
        let mut buffer = Vec::new();
        reader.read_to_end(&mut buffer).unwrap();
        buffer
    }
""", """    let limit = if prefix_length > 0 { prefix_length as u64 } else { u64::MAX };
    let mut buffer = Vec::new();
    match std::io::stdin().lock().take(limit).read_to_end(&mut buffer) {
        Ok(length) => assert_eq!(length, buffer.len()),
        Err(error) => panic!("{}", error),
    }
    buffer
"""),
 ("src/io.rs", "        None => Box::new(std::io::stdin()) as Box<dyn std::io::Read>,", "        None => Box::new(std::io::stdin().lock()) as Box<dyn std::io::Read>,"),
 ("src/io.rs", """            Result::Ok(u) => {
                if u == 1 {
                    Ok(buffer[0])
                } else {
                    Err(std::io::Error::new(
                        std::io::ErrorKind::UnexpectedEof,
                        "end of file",
                    ))
                }
                // assert_eq!(u, 1);
            }
""", """            Ok(0) => Err(std::io::ErrorKind::UnexpectedEof.into()),
            Ok(_) => {
                let [letter] = buffer;
                Ok(letter)
            }
"""),
 (B + "count_sigma.rs", """    let mut inc = 0_usize;
    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
    for c in text_iter {
        let index = *c as usize;
        if alphabet_to_reduced[index] == 0 {
            inc += 1;
            alphabet_to_reduced[index] = inc;
        }
    }
    inc
""", """    let mut seen = [false; 256];
    text_iter
        .filter(|&&c| !std::mem::replace(&mut seen[usize::from(c)], true))
        .count()
"""),
 (B + "count_lexparse.rs", """    let mut i = 0;
    while i < text.len() {
        //@ last character is a dummy character -> do not encode
        if plcp[i] == 0 {
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
            continue;
        }
        factors.push(LZFactor {
            len: plcp[i],
            pos: phi[i] as u32,
        });
        i += plcp[i] as usize;
    }
    factors
""", """    let mut i = 0;
    while let Some(&letter) = text.get(i) {
        let len = plcp[i];
        let pos = if len == 0 { u32::from(letter) } else { phi[i] as u32 };
        i += std::cmp::max(len, 1) as usize;
        factors.push(LZFactor { pos, len });
    }
    factors
"""),
 (B + "count_z.rs", """        let max_lcp = if prev_lcp < next_lcp {
            next_lcp
        } else {
            prev_lcp
        };
        let max_pos = if prev_lcp < next_lcp {
            sa[nsv[sa_position] as usize]
        } else {
            sa[psv[sa_position] as usize]
        };
""", """        let (max_lcp, source) = match prev_lcp.cmp(&next_lcp) {
            std::cmp::Ordering::Less => (next_lcp, nsv[sa_position]),
            _ => (prev_lcp, psv[sa_position]),
        };
        let max_pos = sa[source as usize];
"""),
 (B + "mtf.rs", """                for j in 0..pos {
                    mtfvector[pos - j] = mtfvector[pos - j - 1];
                }
                mtfvector[0] = cur_char;
                writer""", """                let letter = mtfvector.remove(pos);
                mtfvector.insert(0, letter);
                writer"""),
 (B + "rle.rs", """            let mut run_counter = 0_u8; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            loop {
                match io::next_char(&mut reader) {
                    None => break,
                    Some(next_char) => {
                        //@ a run that is too long for the counter is split
                        if next_char != prev_char || run_counter == u8::MAX {
                            writer.write_all(&[prev_char, run_counter]).unwrap();
                            prev_char = next_char;
                            run_counter = 0;
                        } else {
                            run_counter += 1;
                        }
                    }
                }
            }
            writer.write_all(&[prev_char, run_counter]).unwrap();
""", """            let mut pair = [first_char, 0];
            while let Some(next_char) = io::next_char(&mut reader) {
                let extended = if next_char == pair[0] {
                    pair[1].checked_add(1)
                } else {
                    None
                };
                match extended {
                    Some(count) => pair[1] = count,
                    None => {
                        writer.write_all(&pair).unwrap();
                        pair = [next_char, 0];
                    }
                }
            }
            writer.write_all(&pair).unwrap();
"""),
 (B + "rle.rs", """            if first_char == CHR_ZERO {
                run_counter = 1;
            } else {
                writer.write_all(&[first_char]).unwrap();
            }
            loop {
                match io::next_char(&mut reader) {
                    None => break,
                    Some(next_char) => {
                        if next_char != CHR_ZERO {
                            if run_counter > 0 {
                                writer
                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                    .unwrap();
                                run_counter = 0;
                            }
                            writer.write_all(&[next_char]).unwrap();
                        } else {
                            //@ a run that is too long for the counter is split
                            if run_counter > u8::MAX as usize {
                                writer
                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                    .unwrap();
                                run_counter = 0;
                            }
                            run_counter += 1;
                        }
                    }
                }
            }
            if run_counter > 0 {
                writer
                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                    .unwrap();
            }
""", """            fn flush_zeros<W: std::io::Write>(writer: &mut W, run_counter: &mut usize) {
                if *run_counter > 0 {
                    writer
                        .write_all(&[CHR_ZERO, (*run_counter - 1) as u8])
                        .unwrap();
                }
                *run_counter = 0;
            }
            let mut current = Some(first_char);
            while let Some(letter) = current {
                if letter == CHR_ZERO {
                    if run_counter == 256 {
                        flush_zeros(writer, &mut run_counter);
                    }
                    run_counter += 1;
                } else {
                    flush_zeros(writer, &mut run_counter);
                    writer.write_all(std::slice::from_ref(&letter)).unwrap();
                }
                current = io::next_char(&mut reader);
            }
            flush_zeros(writer, &mut run_counter);
"""),
 (B + "escape.rs", """            let mut char_mapping = HashMap::new();
            for i in 0..args.from_symbols.len() {
                char_mapping.insert(args.from_symbols[i], args.to_symbols[i]);
            }
            char_mapping
""", """            let mut char_mapping = [None; 256];
            for (from, to) in args.from_symbols.iter().zip(&args.to_symbols) {
                char_mapping[*from as usize] = Some(*to);
            }
            char_mapping
"""),
 (B + "escape.rs", """                    match char_mapping.get(&cur_char) {
                        Some(remapped_char) => {
                            writer.write_all(&[args.escape_symbol, *remapped_char])
                        }""", """                    match char_mapping[cur_char as usize] {
                        Some(remapped_char) => {
                            writer.write_all(&[args.escape_symbol, remapped_char])
                        }"""),
 (B + "enumerate.rs", """    if len == 0 {
        return;
    }
    // indices represent a number in base `alpha_size`, least-significant at the end
    let mut indices = vec![0usize; len];
    loop {
        // build string
        let mut s = String::with_capacity(len);
        for &i in &indices {
            s.push((b'a' + (i as u8)) as char);
        }
        println!("{}", s);

        // increment
        let mut pos = len as isize - 1;
        while pos >= 0 {
            if indices[pos as usize] + 1 < alpha_size {
                indices[pos as usize] += 1;
                break;
            } else {
                indices[pos as usize] = 0;
                pos -= 1;
            }
        }
        if pos < 0 {
            break;
        } // overflow -> finished
    }
""", """    fn extend(word: &mut String, alpha_size: usize, len: usize) {
        if len == 0 {
            println!("{word}");
            return;
        }
        for letter in ('a'..='z').take(alpha_size) {
            word.push(letter);
            extend(word, alpha_size, len - 1);
            word.pop();
        }
    }
    if len > 0 {
        extend(&mut String::new(), alpha_size, len);
    }
"""),
 (B + "entropy_kmer.rs", """        match kmers.get_mut(&kmer) {
            Some(val) => {
                *val += 1;
            }
            None => {
                kmers.insert(kmer, 1);
            }
        };
""", """        *kmers.entry(kmer).or_insert(0) += 1;
"""),
 (B + "reverse.rs", """    text.reverse();
    writer.write_all(text.as_slice()).unwrap();
""", """    text = text.into_iter().rev().collect();
    for block in text.chunks(1 << 16) {
        writer.write_all(block).unwrap();
    }
"""),
 (B + "mus.rs", """        let isai = isa[i] as usize;
        if isai + 1 == sa.len() {
            lcp[isai] as usize
        } else {
            std::cmp::max(lcp[isai], lcp[isa[i] as usize + 1]) as usize
        }
""", """        let isai = isa[i] as usize;
        lcp[isai].max(lcp.get(isai + 1).copied().unwrap_or(0)) as usize
"""),
 (B + "is_stringattractor.rs", """    let mut arr_d = vec![0; n];
    for i in 0..n {
        let text_position = sa[i] as u64;
        if !attractor_positions.get_bit(text_position) {
            let successor_rank = rank.rank1(text_position);
            match select.select1(successor_rank) {
                Some(pos) => {
                    assert!(attractor_positions.get_bit(pos));
                    arr_d[i] = pos - text_position;
                }
                None => arr_d[i] = n as u64,
            }
        }
    }
""", """    let distance = |text_position: u64| -> u64 {
        if attractor_positions.get_bit(text_position) {
            return 0;
        }
        match select.select1(rank.rank1(text_position)) {
            Some(pos) => {
                assert!(attractor_positions.get_bit(pos));
                pos - text_position
            }
            None => n as u64,
        }
    };
    let arr_d: Vec<u64> = sa.iter().map(|&position| distance(position as u64)).collect();
"""),
 (B + "lyndonfactorization.rs", """                write!(
                    &mut os,
                    "\\n>Factor {} : {} -> {}\\n",
                    factor_id + 1,
                    factors[factor_id - 1] + 1,
                    factors[factor_id] + 1
                )
                .unwrap();
                os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                    .unwrap();
""", """                let range = factors[factor_id - 1] + 1..factors[factor_id] + 1;
                writeln!(os).unwrap();
                writeln!(
                    os,
                    ">Factor {} : {} -> {}",
                    factor_id + 1,
                    range.start,
                    range.end
                )
                .unwrap();
                os.write_all(&text[range]).unwrap();
"""),
 (B + "randomstring.rs", """        let mut newchar = rng.sample(Alphanumeric);
        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {
            while !charset.contains(&newchar) {
                newchar = rng.sample(Alphanumeric);
            }
        }
""", """        let full = args.alphabet_size != 0 && charset.len() == args.alphabet_size;
        let newchar = loop {
            let newchar = rng.sample(Alphanumeric);
            if !full || charset.contains(&newchar) {
                break newchar;
            }
        };
"""),
 (W, """    let n = 1 << k;
    let mut text = vec![0_u8; n];
    // let mut text : Vec<u8> = Vec::with_capacity(n);
    // unsafe { text.set_len(n); }
    text[0] = CHR_A;
    for j in 0..k {
        let powerj = 1 << j;
        for k in 0..powerj {
            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };
        }
    }
    text
""", """    (0..1_usize << k)
        .map(|position| match position.count_ones() % 2 {
            0 => CHR_A,
            _ => CHR_B,
        })
        .collect()
"""),
 (W, """            if text[source] == CHR_A {
                text[target] = current_symbol;
                target += 1;
            }
            if text[source] == CHR_B {
                text[target] = current_symbol;
                text[target + 1] = current_symbol;
                target += 2;
            }
            source += 1;
""", """            let repetitions = (text[source] - CHR_A) as usize + 1;
            text[target..target + repetitions].fill(current_symbol);
            target += repetitions;
            source += 1;
"""),
 (W, """    for k in 0..(n >> 1) {
        let target_position = 2 * k;
        match text[k] {
            CHR_D => {
                text[target_position] = CHR_D;
                text[target_position + 1] = CHR_B;
            }
            CHR_B => {
                text[target_position] = CHR_C;
                text[target_position + 1] = CHR_B;
            }
            CHR_C => {
                text[target_position] = CHR_D;
                text[target_position + 1] = CHR_A;
            }
            CHR_A => {
                text[target_position] = CHR_C;
                text[target_position + 1] = CHR_A;
            }
            _ => panic!("unknown sequence : {} at position {}", text[k], k),
        }
    }
    text
""", """    for k in 0..(n >> 1) {
        let image: &[u8; 2] = match text[k] {
            CHR_D => b"db",
            CHR_B => b"cb",
            CHR_C => b"da",
            CHR_A => b"ca",
            unknown => panic!("unknown sequence : {} at position {}", unknown, k),
        };
        text[2 * k..][..2].copy_from_slice(image);
    }
    text
"""),
 (W, """        for start_char in oldtext {
            for c in morphism(start_char) {
                text.push(*c);
            }
        }
        oldtext = text;
        text = Vec::new()
""", """        text.clear();
        text.extend(oldtext.iter().flat_map(|&c| morphism(c)));
        std::mem::swap(&mut text, &mut oldtext);
"""),
 (W, """    let mut i = 0;
    let mut j = 1;
    while j != n && text.index(i) <= text.index(j) {
        if text.index(i) < text.index(j) {
            i = 0;
        }
        if text.index(i) == text.index(j) {
            i += 1;
        }
        j += 1;
    }
    if j != n {
        return false;
    }
    true
""", """    let mut i = 0;
    for j in 1..n {
        if text[j] < text[i] {
            return false;
        }
        if text[j] > text[i] {
            i = 0;
        }
        if text[j] == text[i] {
            i += 1;
        }
    }
    true
"""),
 (W, """    let mut most_significant_bit = 0;
    for j in 1..=n {
        while j > 1 << (most_significant_bit + 1) {
            most_significant_bit += 1;
        }
        if j & ((1 << most_significant_bit) - 1) > 0 {
            text[j - 1] = CHR_A;
        } else {
            text[j - 1] = CHR_B;
        }
    }
""", """    for (j, letter) in (1_usize..).zip(text.iter_mut()) {
        *letter = if j.is_power_of_two() { CHR_B } else { CHR_A };
    }
"""),
]


def apply(r, repo):
    for f, a, b in R[r]:
        t = open(f"{repo}/{f}").read()
        if a not in t:
            print("text not found:", f, repr(a)[:90])
            continue
        open(f"{repo}/{f}", "w").write(t.replace(a, b, 1))


def main():
    r = sys.argv[1]
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 34) if i != 26]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], stdout=subprocess.PIPE).stdout
    try:
        apply(r, "/repo")
        if props == ["test"]:
            print(subprocess.run("cd /repo; bash /opt/vp/build.sh 2>&1 | grep -A8 '^error' ; bash /opt/vp/test.sh /tmp/t.json 2>&1 | grep -c ok; cat /tmp/t.json | cut -c1-600", shell=True, text=True, stdout=subprocess.PIPE).stdout)
            return
        for p in props:
            t = time.time()
            q = subprocess.run(["python3", V + "/run.py", "check", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            inc = [l for l in q.stdout.splitlines() if l.startswith(("INCOMPLETE", "VIOLATION"))]
            print(r, p, "rc", q.returncode, f"{time.time()-t:.0f}s", len(inc), "|".join(x[:150] for x in inc[:3]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)


if __name__ == "__main__":
    main()
