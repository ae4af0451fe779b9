from run import bug, ref

# ---------------------------------------------------------------- loaders (C03, C04)
ref('read_slice-index', 'C03,C04,C10', ('archive.rs', '''        for item in buffer.iter_mut() {
            *item = Self::read(archive)?;
        }''', '''        for i in 0..buffer.len() {
            buffer[i] = Self::read(archive)?;
        }'''))
ref('read_vec-collect', 'C03,C04,C10', ('archive.rs', '''        let mut buffer = Vec::with_capacity(count);
        for _ in 0..count {
            buffer.push(Self::read(archive)?);
        }
        Ok(buffer)''', '''        (0..count).map(|_| Self::read(archive)).collect()'''))
ref('read_vec-while', 'C03,C04,C10', ('archive.rs', '''        let mut buffer = Vec::with_capacity(count);
        for _ in 0..count {
            buffer.push(Self::read(archive)?);
        }
        Ok(buffer)''', '''        let mut buffer = Vec::new();
        while buffer.len() < count {
            let item = Self::read(archive)?;
            buffer.push(item);
        }
        Ok(buffer)'''))
ref('string-while', 'C03,C04,C10', ('archive.rs', '''        loop {
            let char = u8::read(archive)?;
            if char != 0 {
                buffer.push(char);
            } else {
                break;
            }
        }''', '''        let mut byte = u8::read(archive)?;
        while byte != 0 {
            buffer.push(byte);
            byte = u8::read(archive)?;
        }'''))
ref('string-match', 'C03,C04,C10', ('archive.rs', '''            let char = u8::read(archive)?;
            if char != 0 {
                buffer.push(char);
            } else {
                break;
            }''', '''            match u8::read(archive)? {
                0 => break,
                c => buffer.push(c),
            }'''))
ref('string-bytes-match', 'C03,C04,C10', ('archive.rs', '''        let text = String::from_utf8(buffer).map_err(|e| e.utf8_error())?;
        Ok(text)''', '''        match String::from_utf8(buffer) {
            Ok(text) => Ok(text),
            Err(e) => Err(e.utf8_error().into()),
        }'''))
ref('anim-helper', 'C03,C04,C10', ('animation.rs', '''        if is_ratio_u8 {
            for i in 0..animation.t_ratios().len() {
                animation.t_ratios_mut()[i] = archive.read::<u8>()? as u16;
            }
        } else {
            archive.read_slice(animation.t_ratios_mut())?;
        }''', '''        Self::read_ratios(archive, animation.t_ratios_mut(), is_ratio_u8)?;'''),
    ('animation.rs', '''    /// Reads an `Animation` from an `Archive`.
    pub fn from_archive''', '''    fn read_ratios(archive: &mut Archive<impl Read>, ratios: &mut [u16], is_u8: bool) -> Result<(), OzzError> {
        if !is_u8 {
            return archive.read_slice(ratios);
        }
        for ratio in ratios.iter_mut() {
            *ratio = u16::from(archive.read::<u8>()?);
        }
        Ok(())
    }

    /// Reads an `Animation` from an `Archive`.
    pub fn from_archive'''))
ref('anim-name', 'C03,C04,C10', ('animation.rs', '''        let mut name = String::new();
        if name_len != 0 {
            let buf = archive.read_vec(name_len as usize)?;
            name = String::from_utf8(buf).map_err(|e| e.utf8_error())?;
        }
''', '''        let name = if name_len == 0 {
            String::new()
        } else {
            let buf = archive.read_vec(name_len as usize)?;
            String::from_utf8(buf).map_err(|e| e.utf8_error())?
        };
'''))
ref('anim-tagver', 'C03,C04,C10', ('animation.rs', '''        if archive.read_tag()? != Self::tag() {
            return Err(OzzError::InvalidTag);
        }
        if archive.read_version()? != Self::version() {
            return Err(OzzError::InvalidVersion);
        }
''', '''        let (tag, version) = archive.read_tag_version()?;
        if tag != Self::tag() {
            return Err(OzzError::InvalidTag);
        }
        if version != Self::version() {
            return Err(OzzError::InvalidVersion);
        }
'''))
ref('soa-read', 'C03,C04,C10', ('math.rs', '''        for value in buffer.iter_mut() {
            *value = archive.read()?;
        }''', '''        archive.read_slice(&mut buffer)?;'''))
ref('soa-read-idx', 'C03,C04,C10', ('math.rs', '''        for value in buffer.iter_mut() {
            *value = archive.read()?;
        }''', '''        let mut i = 0;
        while i < COUNT {
            buffer[i] = archive.read()?;
            i += 1;
        }'''))
ref('key-read', 'C03,C04,C10', ('animation.rs', '''        let value: [u16; 3] = [archive.read()?, archive.read()?, archive.read()?];
        Ok(Float3Key(value))''', '''        let x = archive.read()?;
        let y = archive.read()?;
        let z = archive.read()?;
        Ok(Float3Key([x, y, z]))'''))
ref('key-read-slice', 'C03,C04,C10', ('animation.rs', '''        let value: [u16; 3] = [archive.read()?, archive.read()?, archive.read()?];
        Ok(Float3Key(value))''', '''        let mut value = [0u16; 3];
        archive.read_slice(&mut value)?;
        Ok(Float3Key(value))'''))
ref('skel-names', 'C03,C04,C10', ('skeleton.rs', '''        for idx in 0..skeleton.num_joints() {
            skeleton.joint_names.insert(archive.read::<String>()?, idx as i16);
        }
''', '''        let num_joints = skeleton.num_joints() as i16;
        let mut idx = 0i16;
        while idx < num_joints {
            let name = archive.read_tag()?;
            skeleton.joint_names.insert(name, idx);
            idx += 1;
        }
'''))
ref('track-helper', 'C03,C04,C10', ('track.rs', '''        let steps: Vec<u8> = archive.read_vec((key_count + 7) as usize / 8)?;
''', '''        let steps: Vec<u8> = archive.read_vec(key_count.div_ceil(8) as usize)?;
'''))
bug('anim-order', 'C03', ('animation.rs', '''        let t_iframe_entries_count: u32 = archive.read()?;
        let t_iframe_desc_count: u32 = archive.read()?;''', '''        let t_iframe_desc_count: u32 = archive.read()?;
        let t_iframe_entries_count: u32 = archive.read()?;'''))
bug('anim-u8-254', 'C03', ('animation.rs', 'animation.timepoints().len() <= (u8::MAX as usize)', 'animation.timepoints().len() < (u8::MAX as usize)'))
bug('anim-swap-slot', 'C03', ('animation.rs', 'archive.read_slice(animation.s_previouses_mut())?;', 'archive.read_slice(animation.r_previouses_mut())?;'))
bug('track-steps', 'C03', ('track.rs', '(key_count + 7) as usize / 8', 'key_count as usize / 8 + 1'))
bug('skel-name-idx', 'C03', ('skeleton.rs', 'skeleton.joint_names.insert(archive.read::<String>()?, idx as i16);', 'skeleton.joint_names.insert(archive.read::<String>()?, idx as u8 as i16);'))
bug('quat-order', 'C03', ('archive.rs', 'Ok(Quat::from_xyzw(x, y, z, w))', 'Ok(Quat::from_xyzw(x, y, w, z))'))
bug('read_vec-eof', 'C04', ('archive.rs', '''            buffer.push(Self::read(archive)?);
''', '''            match Self::read(archive) {
                Ok(item) => buffer.push(item),
                Err(_) => break,
            }
'''))
bug('string-lossy', 'C03', ('archive.rs', '''        let text = String::from_utf8(buffer).map_err(|e| e.utf8_error())?;
        Ok(text)''', '''        Ok(String::from_utf8_lossy(&buffer).into_owned())'''))
bug('version-ge', 'C03', ('animation.rs', 'archive.read_version()? != Self::version()', 'archive.read_version()? < Self::version()'))
bug('skel-empty', 'C03', ('skeleton.rs', '''        if skeleton.num_joints() == 0 {
            return Ok(skeleton);
        }
''', ''))
# ---------------------------------------------------------------- C04
bug('eof-default', 'C04', ('archive.rs', '''                archive
                    .read
                    .read_exact(unsafe { slice::from_raw_parts_mut(ptr, size) })?;
''', '''                if let Err(e) = archive
                    .read
                    .read_exact(unsafe { slice::from_raw_parts_mut(ptr, size) }) {
                    if e.kind() != std::io::ErrorKind::UnexpectedEof || size != 1 {
                        return Err(e.into());
                    }
                }
'''))
bug('read-not-exact', 'C04', ('archive.rs', '''                archive
                    .read
                    .read_exact(unsafe { slice::from_raw_parts_mut(ptr, size) })?;
''', '''                archive
                    .read
                    .read(unsafe { slice::from_raw_parts_mut(ptr, size) })?;
'''))
bug('tag-as-version', 'C04', ('track.rs', 'return Err(OzzError::InvalidTag);', 'return Err(OzzError::InvalidVersion);'))
bug('utf8-unchecked', 'C04', ('animation.rs', 'name = String::from_utf8(buf).map_err(|e| e.utf8_error())?;', 'name = unsafe { String::from_utf8_unchecked(buf) };'))
bug('kind-lost', 'C04', ('base.rs', 'OzzError::IO(err.kind())', 'OzzError::IO({ let _ = err; std::io::ErrorKind::Other })'))
bug('reject-extra', 'C04', ('skeleton.rs', '''        let num_joints: u32 = archive.read()?;
''', '''        let num_joints: u32 = archive.read()?;
        if num_joints > 1024 {
            return Err(OzzError::InvalidTag);
        }
'''))
bug('is_io-wrong', 'C04', ('base.rs', 'matches!(self, OzzError::IO(_))', 'matches!(self, OzzError::IO(_) | OzzError::Utf8(_))'))
ref('from-path-match', 'C04', ('skeleton.rs', '''    pub fn from_path<P: AsRef<std::path::Path>>(path: P) -> Result<Skeleton, OzzError> {
        let mut archive = Archive::from_path(path)?;
        Skeleton::from_archive(&mut archive)''', '''    pub fn from_path<P: AsRef<std::path::Path>>(path: P) -> Result<Skeleton, OzzError> {
        match Archive::from_path(path) {
            Ok(mut archive) => Skeleton::from_archive(&mut archive),
            Err(err) => Err(err),
        }'''))
ref('from-path-file', 'C04', ('archive.rs', '''        let file = File::open(path)?;
        Archive::new(file)''', '''        Self::from_file(File::open(path)?)'''))
ref('is-io-match', 'C04', ('base.rs', 'matches!(self, OzzError::IO(_))', 'if let OzzError::IO(_) = self { true } else { false }'))
# ---------------------------------------------------------------- C10
bug('swap-i16-nop', 'C10', ('endian.rs', '''    fn swap_endian(self) -> i16 {
        self.swap_bytes()''', '''    fn swap_endian(self) -> i16 {
        self'''))
bug('swap-inverted', 'C10', ('archive.rs', 'endian_swap: file_endian != native_endian', 'endian_swap: file_endian == Endian::Big && native_endian == Endian::Big'))
bug('key-noswap', 'C10', ('animation.rs', '''        let value: [u16; 3] = [archive.read()?, archive.read()?, archive.read()?];
        Ok(Float3Key(value))''', '''        let mut value: [u16; 3] = [archive.read()?, archive.read()?, archive.read()?];
        if archive.endian_swap() {
            value[2] = value[2].swap_bytes();
        }
        Ok(Float3Key(value))'''))
bug('f32-swap', 'C10', ('endian.rs', '''    fn swap_endian(self) -> f64 {
        f64::from_bits(self.to_bits().swap_bytes())''', '''    fn swap_endian(self) -> f64 {
        f64::from_bits(self.to_bits().rotate_left(32))'''))
ref('endian-if', 'C10,C03,C04', ('archive.rs', '''                match archive.endian_swap {
                    true => Ok(val.swap_endian()),
                    false => Ok(val),
                }''', '''                if archive.endian_swap() {
                    val = val.swap_endian();
                }
                Ok(val)'''))
ref('endian-cfg', 'C10', ('endian.rs', '''        let num: u16 = 1;
        let bytes: [u8; 2] = num.to_ne_bytes();
        if bytes[0] == 0 {
            Endian::Big
        } else {
            Endian::Little
        }''', '''        if cfg!(target_endian = "big") {
            Endian::Big
        } else {
            Endian::Little
        }'''))
ref('endian-match', 'C10', ('endian.rs', '''        if tag == 0 {
            Endian::Big
        } else {
            Endian::Little
        }''', '''        match tag {
            0 => Endian::Big,
            _ => Endian::Little,
        }'''))
ref('endian-array', 'C10,C03,C04', ('archive.rs', '''                let size = mem::size_of::<$type>();
                let ptr = &mut val as *mut $type as *mut u8;
                archive
                    .read
                    .read_exact(unsafe { slice::from_raw_parts_mut(ptr, size) })?;
''', '''                let mut bytes = [0u8; mem::size_of::<$type>()];
                archive.read.read_exact(&mut bytes)?;
                val = <$type>::from_ne_bytes(bytes);
'''))

# ---------------------------------------------------------------- memory (C02)
ref('align-next-multiple', 'C02', ('base.rs', '    (size + align - 1) & !(align - 1)\n', '    size.next_multiple_of(align)\n'))
ref('align-div', 'C02', ('base.rs', '    (size + align - 1) & !(align - 1)\n', '    (size + align - 1) / align * align\n'))
ref('view-helper', 'C02', ('skeleton.rs', '''        unsafe { slice::from_raw_parts(self.joint_parents, self.num_joints()) }
''', '''        fn view<'t, T>(ptr: *const T, n: usize) -> &'t [T] {
            unsafe { slice::from_raw_parts(ptr, n) }
        }
        let n = self.num_joints();
        view(self.joint_parents, n)
'''))
ref('parents-first', 'C02', ('skeleton.rs', '''            skeleton.joint_rest_poses = ptr as *mut SoaTransform;
            ptr = ptr.add(mem::size_of::<SoaTransform>() * skeleton.num_soa_joints());
''', '''            let poses = mem::size_of::<SoaTransform>() * skeleton.num_soa_joints();
            skeleton.joint_rest_poses = ptr as *mut SoaTransform;
            ptr = ptr.add(poses);
'''))
ref('anim-swap-regions', 'C02,C03', ('animation.rs', '''            animation.t_ratios = ptr as *mut u16;
            ptr = ptr.add(animation.translations_count as usize * mem::size_of::<u16>());
            animation.t_previouses = ptr as *mut u16;
            ptr = ptr.add(animation.translations_count as usize * mem::size_of::<u16>());
''', '''            animation.t_previouses = ptr as *mut u16;
            ptr = ptr.add(animation.translations_count as usize * mem::size_of::<u16>());
            animation.t_ratios = ptr as *mut u16;
            ptr = ptr.add(animation.translations_count as usize * mem::size_of::<u16>());
'''))
ref('drop-let', 'C02', ('skeleton.rs', '''                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::align_of::<SoaTransform>());
                alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
''', '''                let size = self.size.max(1);
                let ptr = self.joint_rest_poses as *mut u8;
                let layout = Layout::from_size_align_unchecked(size, mem::align_of::<SoaTransform>());
                alloc::dealloc(ptr, layout);
'''))
ref('ctx-early-return', 'C02', ('sampling_job.rs', '''        if !self.0.is_null() {
            unsafe {
                let layout = Layout::from_size_align_unchecked(self.size(), mem::size_of::<f32x4>());
                alloc::dealloc(self.0 as *mut u8, layout);
            }
            self.0 = std::ptr::null_mut();
        }
''', '''        if self.0.is_null() {
            return;
        }
        let size = self.size();
        unsafe {
            let layout = Layout::from_size_align_unchecked(size, mem::align_of::<f32x4>());
            alloc::dealloc(self.0 as *mut u8, layout);
        }
        self.0 = std::ptr::null_mut();
'''))
bug('view-count', 'C02', ('animation.rs', '        unsafe { slice::from_raw_parts(self.s_previouses, self.scales_count as usize) }', '        unsafe { slice::from_raw_parts(self.s_previouses, self.translations_count as usize) }'))
bug('view-ctrl', 'C02', ('animation.rs', 'previouses: slice::from_raw_parts(self.s_previouses, self.scales_count as usize)', 'previouses: slice::from_raw_parts(self.s_previouses, self.rotations_count as usize)'))
bug('drop-align', 'C02', ('sampling_job.rs', '                let layout = Layout::from_size_align_unchecked(self.size(), mem::size_of::<f32x4>());\n                alloc::dealloc', '                let layout = Layout::from_size_align_unchecked(self.size(), mem::size_of::<u64>());\n                alloc::dealloc'))
bug('skeleton-clone', 'C02', ('skeleton.rs', '#[derive(Debug)]\npub struct Skeleton {', '#[derive(Debug, Clone)]\npub struct Skeleton {'))
bug('get-unchecked', 'C02', ('track_sampling_job.rs', 'track.ratios()[id0]', 'unsafe { *track.ratios().get_unchecked(id0) }'))
bug('ctx-quat-size', 'C02', ('sampling_job.rs', '        let rotation_size = mem::size_of::<InterpSoaQuaternion>() * max_soa_tracks', '        let rotation_size = mem::size_of::<InterpSoaFloat3>() * max_soa_tracks'),
    ('sampling_job.rs', 'ptr = ptr.add(mem::size_of::<InterpSoaQuaternion>() * inner.max_soa_tracks);', 'ptr = ptr.add(mem::size_of::<InterpSoaFloat3>() * inner.max_soa_tracks);'))
bug('anim-no-align', 'C02', ('animation.rs', '''        animation.size = align_usize(animation.size, ALIGN);
        animation.size += animation.s_iframe_desc_count''', '''        animation.size += animation.s_iframe_desc_count'''),
    ('animation.rs', '''            ptr = align_ptr(ptr, ALIGN);
            animation.s_iframe_desc = ptr''', '''            animation.s_iframe_desc = ptr'''))
bug('count-late', 'C02', ('skeleton.rs', '        let mut skeleton = Skeleton::new(meta);\n', '        let mut skeleton = Skeleton::new(meta);\n        skeleton.num_soa_joints = skeleton.num_soa_joints.max(1);\n'))

# ---------------------------------------------------------------- local to model (C17)
LTM_LOOP = '''        let mut idx = begin;
        let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);

        while process {
            let transform = &input[idx / 4];
            let soa_matrices = SoaMat4::from_affine(&transform.translation, &transform.rotation, &transform.scale);
            let aos_matrices = soa_matrices.to_aos();

            let soa_end = (idx + 4) & !3;
            while idx < soa_end && process {
                let parent = skeleton.joint_parent(idx);
                if parent as i32 == SKELETON_NO_PARENT {
                    output[idx] = AosMat4::mul(&self.root, &aos_matrices[idx & 3]).into();
                } else {
                    output[idx] = AosMat4::mul(&output[parent as usize].into(), &aos_matrices[idx & 3]).into();
                }

                idx += 1;
                process = idx < end && skeleton.joint_parent(idx) as i32 >= self.from;
            }
        }
        Ok(())'''
ref('ltm-for', 'C17', ('local_to_model_job.rs', LTM_LOOP, '''        for idx in begin..end {
            let parent = skeleton.joint_parent(idx) as i32;
            if parent < self.from && (idx != begin || self.from_excluded) {
                break;
            }
            let transform = &input[idx / 4];
            let soa_matrices = SoaMat4::from_affine(&transform.translation, &transform.rotation, &transform.scale);
            let aos_matrices = soa_matrices.to_aos();
            let base: AosMat4 = if parent < 0 { self.root } else { output[parent as usize].into() };
            output[idx] = AosMat4::mul(&base, &aos_matrices[idx % 4]).into();
        }
        Ok(())'''))
ref('ltm-loop-break', 'C17', ('local_to_model_job.rs', LTM_LOOP, '''        let parents = skeleton.joint_parents();
        let mut idx = begin;
        let mut first = !self.from_excluded;
        loop {
            if idx >= skeleton.num_joints() || idx as i32 > self.to {
                break;
            }
            if !first && (parents[idx] as i32) < self.from {
                break;
            }
            first = false;
            let transform = &input[idx / 4];
            let aos = SoaMat4::from_affine(&transform.translation, &transform.rotation, &transform.scale).to_aos();
            let local = aos[idx & 3];
            let model = if parents[idx] as i32 == SKELETON_NO_PARENT {
                self.root.mul(&local)
            } else {
                let p: AosMat4 = output[parents[idx] as usize].into();
                p.mul(&local)
            };
            output[idx] = model.into();
            idx += 1;
        }
        Ok(())'''))
ref('ltm-helper', 'C17', ('local_to_model_job.rs', LTM_LOOP, LTM_LOOP.replace('''                if parent as i32 == SKELETON_NO_PARENT {
                    output[idx] = AosMat4::mul(&self.root, &aos_matrices[idx & 3]).into();
                } else {
                    output[idx] = AosMat4::mul(&output[parent as usize].into(), &aos_matrices[idx & 3]).into();
                }
''', '''                let local = &aos_matrices[idx & 3];
                let model = if parent as i32 == SKELETON_NO_PARENT {
                    AosMat4::mul(&self.root, local)
                } else {
                    let base: AosMat4 = output[parent as usize].into();
                    AosMat4::mul(&base, local)
                };
                output[idx] = model.into();
''')))
ref('ltm-from-affine', 'C17', ('math.rs', '        let zzzz = simd_swizzle!(other.cols[2], Z) * self.cols[2];', '        let zzzz = self.cols[2] * simd_swizzle!(other.cols[2], Z);'))
bug('ltm-to', 'C17', ('local_to_model_job.rs', 'i32::min(self.to.saturating_add(1), skeleton', 'i32::min(self.to, skeleton'))
bug('ltm-from', 'C17', ('local_to_model_job.rs', 'process = idx < end && skeleton.joint_parent(idx) as i32 >= self.from;', 'process = idx < end && skeleton.joint_parent(idx) as i32 > self.from;'))
bug('ltm-excl', 'C17', ('local_to_model_job.rs', '(!self.from_excluded || skeleton.joint_parent(idx)', '(self.from_excluded || skeleton.joint_parent(idx)'))
bug('ltm-lane', 'C17', ('local_to_model_job.rs', '&output[parent as usize].into(), &aos_matrices[idx & 3])', '&output[parent as usize].into(), &aos_matrices[(idx - begin) & 3])'))
bug('ltm-order', 'C17', ('local_to_model_job.rs', 'AosMat4::mul(&self.root, &aos_matrices[idx & 3])', 'AosMat4::mul(&aos_matrices[idx & 3], &self.root)'))
bug('ltm-affine', 'C17', ('math.rs', 'aos[14] = simd_swizzle!(tmp10, tmp11, HIGH);', 'aos[14] = simd_swizzle!(tmp11, tmp10, HIGH);'))
bug('ltm-tail', 'C17', ('local_to_model_job.rs', '        Ok(())\n    }\n}\n\n#[cfg(test)]', '        if end > begin && idx < output.len() {\n            output[idx] = self.root.into();\n        }\n        Ok(())\n    }\n}\n\n#[cfg(test)]'))

# ---------------------------------------------------------------- C16
B = 'blending_job.rs'
ref('blend-flag', 'C16',
    (B, 'num_passes: usize,', 'num_passes: bool,') if False else (B, 'if bp_weight > 0.0 {', 'if 0.0 < bp_weight {'),
    (B, 'if layer.weight <= 0.0 {\n                continue;\n            }\n            ctx.accumulated_weight += layer.weight;', 'let above = layer.weight > 0.0;\n            if !above {\n                continue;\n            }\n            ctx.accumulated_weight = layer.weight + ctx.accumulated_weight;'))
ref('blend-zip', 'C16',
    (B, '''                    for idx in 0..num_soa_joints {
                        ctx.accumulated_weights[idx] = layer_weight;
                        Self::blend_1st_pass(&transform[idx], layer_weight, &mut output[idx]);
                    }
''', '''                    for (idx, (src, dst)) in transform.iter().zip(output.iter_mut()).enumerate().take(num_soa_joints) {
                        Self::blend_1st_pass(src, layer_weight, dst);
                        ctx.accumulated_weights[idx] = layer_weight;
                    }
'''))
ref('blend-while', 'C16',
    (B, '''                    for idx in 0..joint_rest_poses.len() {
                        Self::blend_n_pass(&joint_rest_poses[idx], simd_bp_weight, &mut output[idx]);
                    }
''', '''                    let mut idx = 0;
                    while idx < joint_rest_poses.len() {
                        Self::blend_n_pass(&joint_rest_poses[idx], simd_bp_weight, &mut output[idx]);
                        idx += 1;
                    }
'''))
ref('blend-div', 'C16',
    (B, 'x: output.scale.x * (input.scale.x * weight + one_minus_weight).recip(),', 'x: output.scale.x / (input.scale.x * weight + one_minus_weight),'),
    (B, 'let ratio = f32x4::splat(ctx.accumulated_weight.recip());', 'let ratio = f32x4::splat(1.0 / ctx.accumulated_weight);'))
ref('blend-merge', 'C16',
    (B, '''            if !layer.joint_weights.is_empty() {
                ctx.num_partial_passes += 1;

                if ctx.num_passes == 0 {''', '''            let partial = layer.joint_weights.len() > 0;
            let first = ctx.num_passes == 0;
            if partial {
                ctx.num_partial_passes += 1;

                if first {'''),
    (B, 'let dot = output.rotation.dot(&input.rotation);\n        let rotation = input.rotation.xor_num(fx4_sign(dot));', 'let rotation = Self::same_side(&output.rotation, &input.rotation);'),
    (B, '    #[inline(always)]\n    fn blend_1st_pass', '    fn same_side(a: &SoaQuat, b: &SoaQuat) -> SoaQuat {\n        b.xor_num(fx4_sign(a.dot(b)))\n    }\n\n    #[inline(always)]\n    fn blend_1st_pass'))
ref('blend-order', 'C16',
    (B, '        output.translation = output.translation.add(&input.translation.mul_num(weight));\n        let dot', '        output.scale = output.scale.add(&input.scale.mul_num(weight));\n        output.translation = input.translation.mul_num(weight).add(&output.translation);\n        let dot'),
    (B, '        output.rotation = output.rotation.add(&rotation.mul_num(weight));\n        output.scale = output.scale.add(&input.scale.mul_num(weight));', '        output.rotation = output.rotation.add(&rotation.mul_num(weight));'))
ref('blend-one-add', 'C16',
    (B, '''                    let one_minus_weight = ONE - layer_weight;
                    for idx in 0..joint_rest_poses.len() {
                        Self::blend_sub_pass(&transform[idx], layer_weight, one_minus_weight, &mut output[idx]);''',
     '''                    for idx in 0..skeleton.num_soa_joints() {
                        let one_minus_weight = ONE - layer_weight;
                        Self::blend_sub_pass(&transform[idx], layer_weight, one_minus_weight, &mut output[idx]);'''))
ref('blend-foreach', 'C16',
    (B, '''            for dest in output.iter_mut().take(joint_rest_poses.len()) {
                dest.translation = dest.translation.mul_num(ratio);
                dest.rotation = dest.rotation.normalize();
                dest.scale = dest.scale.mul_num(ratio);
            }''', '''            output[..joint_rest_poses.len()].iter_mut().for_each(|dest| {
                dest.translation = dest.translation.mul_num(ratio);
                dest.rotation = dest.rotation.normalize();
                dest.scale = dest.scale.mul_num(ratio);
            });'''))
bug('blend-neg-jw', 'C16', (B, '''                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
                        ctx.accumulated_weights[idx] += weight;''', '''                        let weight = layer_weight * layer.joint_weight(idx);
                        ctx.accumulated_weights[idx] += weight;'''))
bug('blend-no-reset', 'C16', (B, '        ctx.num_partial_passes = 0;\n        ctx.num_passes = 0;', '        ctx.num_passes = 0;'))
bug('blend-acc-reset', 'C16', (B, '        ctx.accumulated_weight = 0.0;\n        if', '        if'))
bug('blend-weight-neg', 'C16', (B, 'if layer.weight <= 0.0 {', 'if layer.weight < 0.0 {'))
bug('blend-first-partial', 'C16', (B, 'if ctx.num_passes == 0 {\n                    for idx in 0..num_soa_joints {\n                        ctx', 'if ctx.num_passes == ctx.num_partial_passes {\n                    for idx in 0..num_soa_joints {\n                        ctx'))
bug('blend-skip-last', 'C16', (B, '''                    for idx in 0..num_soa_joints {
                        ctx.accumulated_weights[idx] += layer_weight;''', '''                    for idx in 0..num_soa_joints.max(1) - 1 {
                        ctx.accumulated_weights[idx] += layer_weight;'''))
bug('blend-no-flip', 'C16', (B, 'self', 'self') if False else (B, 'output.rotation = output.rotation.add(&rotation.mul_num(weight));', 'output.rotation = output.rotation.add(&input.rotation.mul_num(weight));'))
bug('blend-thr-acc', 'C16', (B, 'ctx.accumulated_weights[idx] = simd_threshold.simd_max(ctx.accumulated_weights[idx]);', 'ctx.accumulated_weights[idx] = simd_threshold;'))
bug('blend-thr-set', 'C16', (B, '                    ctx.accumulated_weight = threshold;\n', ''))
bug('blend-norm-mixed', 'C16', (B, 'let ratio = ctx.accumulated_weights[idx].recip();', 'let ratio = f32x4::splat(ctx.accumulated_weight.recip());'))
bug('blend-add-neg', 'C16', (B, '} else if layer.weight < 0.0 {', '} else if layer.weight < -0.001 {'))
bug('blend-sub-conj', 'C16', (B, '.mul(&interp_quat.normalize().conjugate());', '.mul(&interp_quat.conjugate());'))
bug('blend-sub-weight', 'C16', (B, '''                        let one_minus_weight = ONE - weight;
                        Self::blend_sub_pass''', '''                        let one_minus_weight = ONE - layer_weight;
                        Self::blend_sub_pass'''))
bug('blend-scale-z', 'C16', (B, 'z: output.scale.z * (soa_one_minus_weight + input.scale.z * weight),', 'z: output.scale.z * (soa_one_minus_weight + input.scale.y * weight),'))
bug('blend-partial-skip', 'C16', (B, '                ctx.num_partial_passes += 1;\n\n                if ctx.num_passes == 0 {', '                if ctx.num_passes == 0 {\n                    ctx.num_partial_passes += 1;'))
bug('blend-jw-index', 'C16', (B, 'fx4_from_vec4(self.joint_weights[idx])', 'fx4_from_vec4(self.joint_weights[idx / 4])'))
bug('blend-positive-w', 'C16', (B, 'let rotation = input.rotation.positive_w();', 'let rotation = input.rotation.conjugate().conjugate();'))

# ---------------------------------------------------------------- skinning (C15)
K = 'skinning_job.rs'
INNER = '''            for j in 1..($n - 1).max(1) {
                let weight = Vec4::splat(weights[weight_offset + j]);
                weight_sum += weight;
                let joint_index = indices[index_offset + j] as usize;
                transform += mat4_col_mul(matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight);
                it!($it, transform_it += mat4_col_mul(it_matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight));
            }
'''
ref('skin-while', 'C15', (K, INNER, '''            let mut j = 1;
            while j + 1 < $n {
                let weight = Vec4::splat(weights[weight_offset + j]);
                let joint_index = indices[index_offset + j] as usize;
                it!($it, transform_it += mat4_col_mul(it_matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight));
                transform += mat4_col_mul(matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight);
                weight_sum = weight + weight_sum;
                j += 1;
            }
'''))
ref('skin-helper', 'C15', (K, '''#[inline(always)]
fn mat4_col_mul(m: &Mat4, v: Vec4) -> Mat4 {
    Mat4::from_cols(m.x_axis * v, m.y_axis * v, m.z_axis * v, m.w_axis * v)
}''', '''fn lookup(matrices: &[Mat4], index: usize) -> Result<&Mat4, OzzError> {
    if index >= matrices.len() {
        return Err(OzzError::InvalidIndex);
    }
    Ok(&matrices[index])
}

#[inline(always)]
fn mat4_col_mul(m: &Mat4, v: Vec4) -> Mat4 {
    *m * v.x
}'''), (K, INNER, INNER.replace('matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight);\n                it', 'lookup(&matrices, joint_index)?, weight);\n                it')))
ref('skin-remaining', 'C15', (K, '            let mut weight_sum = weight;\n', '            let mut remaining = Vec4::ONE - weight;\n'), (K, '                weight_sum += weight;\n', '                remaining -= weight;\n'),
    (K, '            let weight = Vec4::ONE - weight_sum;\n', '            let weight = remaining;\n'))
ref('skin-scalar', 'C15', (K, '            let mut weight_sum = weight;\n', '            let mut weight_sum = weights[weight_offset];\n'), (K, '                weight_sum += weight;\n', '                weight_sum += weights[weight_offset + j];\n'),
    (K, '            let weight = Vec4::ONE - weight_sum;\n', '            let weight = Vec4::splat(1.0 - weight_sum);\n'))
ref('skin-dispatch', 'C15', (K, '''        let mut branch = (self.influences_count - 1).min(4) * 5;
        if self.in_normals.is_some() {
            branch += 1;
            if self.in_tangents.is_some() {
                branch += 1;
            }
            if self.joint_it_matrices.is_some() {
                branch += 2;
            }
        }
''', '''        let kind = match (self.in_normals.is_some(), self.in_tangents.is_some(), self.joint_it_matrices.is_some()) {
            (false, _, _) => 0,
            (true, false, false) => 1,
            (true, true, false) => 2,
            (true, false, true) => 3,
            (true, true, true) => 4,
        };
        let group = if self.influences_count >= 5 { 4 } else { self.influences_count - 1 };
        let branch = group * 5 + kind;
'''))
ref('skin-while-vertex', 'C15', (K, '            for i in 0..self.vertex_count {\n', '            let mut k = 0;\n            while k < self.vertex_count {\n                let i = k;\n                k += 1;\n'))
ref('skin-noop', 'C15', (K, '            let weight_offset = i * ($n - 1);\n            let index_offset = i * $n;\n', '            let index_offset = i * $n;\n            let weight_offset = index_offset - i;\n            let _ = weight_offset;\n'))
ref('skin-onepass', 'C15', (K, '''            let weight = Vec4::splat(weights[weight_offset]);
            let mut weight_sum = weight;
            let joint_index = indices[index_offset] as usize;
            let mut transform = mat4_col_mul(matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight);
            it!($it, let mut transform_it = mat4_col_mul(it_matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight));
''', '''            let mut weight_sum = Vec4::ZERO;
            let mut transform = Mat4::ZERO;
            it!($it, let mut transform_it = Mat4::ZERO);
'''), (K, 'for j in 1..($n - 1).max(1) {', 'for j in 0..$n - 1 {'))
ref('skin-slices', 'C15', (K, INNER, INNER.replace('weights[weight_offset + j]', 'vertex_weights[j]').replace('indices[index_offset + j]', 'vertex_joints[j]')),
    (K, '            let mut weight_sum = weight;\n', '            let mut weight_sum = weight;\n            let vertex_weights = &weights[weight_offset..weight_offset + $n - 1];\n            let vertex_joints = &indices[index_offset..index_offset + $n];\n'))
bug('skin-offset', 'C15', (K, 'let weight_offset = i * ($n - 1);', 'let weight_offset = i * $n - i.min(1);'))
bug('skin-skip-last-mid', 'C15', (K, 'for j in 1..($n - 1).max(1) {', 'for j in 1..($n - 1).min(7).max(1) {'))
bug('skin-it-swap', 'C15', (K, 'it!($it, transform_it += mat4_col_mul(it_matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight));\n            }', 'it!($it, transform_it += mat4_col_mul(matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight));\n            }'))
bug('skin-it-ignored', 'C15', (K, '''            if self.joint_it_matrices.is_some() {
                branch += 2;''', '''            if self.joint_it_matrices.is_some() && self.influences_count != 3 {
                branch += 2;'''))
bug('skin-tangent-point', 'C15', (K, 'out_tangents[i] = transform_it.transform_vector3(in_tangents[i]);', 'out_tangents[i] = transform_it.transform_point3(in_tangents[i]);'))
bug('skin-tangent-normal', 'C15', (K, 'out_tangents[i] = it!($it, transform_it, transform).transform_vector3(in_tangents[i]);', 'out_tangents[i] = it!($it, transform_it, transform).transform_vector3(in_normals[i]);'))
bug('skin-rest-clamp', 'C15', (K, 'let weight = Vec4::ONE - weight_sum;', 'let weight = (Vec4::ONE - weight_sum).max(Vec4::ZERO);'))
bug('skin-wrong-n', 'C15', (K, 'skinning_c!(skinning_4_pnt_it, 4, IT, PNT);', 'skinning_c!(skinning_4_pnt_it, 3, IT, PNT);'))
bug('skin-missing-clamp', 'C15', (K, 'let transform = &matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?;', 'let transform = &matrices[joint_index.min(matrices.len() - 1)];'))
bug('skin-zero-skip', 'C15', (K, INNER, INNER.replace('weight_sum += weight;', 'weight_sum += weight;\n                if weights[weight_offset + j] <= 0.0 {\n                    continue;\n                }')))
bug('skin-early-out', 'C15', (K, INNER, INNER.replace('weight_sum += weight;', 'if weight_sum.x >= 1.0 {\n                    break;\n                }\n                weight_sum += weight;')))
bug('skin-last-index', 'C15', (K, 'let joint_index = indices[index_offset + $n - 1] as usize;', 'let joint_index = indices[index_offset + ($n - 1).min(7)] as usize;'))
bug('skin-normal-count', 'C15', (K, '            for i in 0..self.vertex_count {', '            for i in 0..out_positions.len() {'))

# ---------------------------------------------------------------- sampling (C07, C08)
SJ = 'sampling_job.rs'
P78 = 'C07,C08'
FWDCOND = '''        while next < num_keys
            && Self::key_ratio(ctrl, animation.timepoints(), next - ctrl.previouses[next] as usize) <= ratio
        {
            track ='''
ref('smp-loop-break', P78, (SJ, FWDCOND, '''        loop {
            if next >= num_keys {
                break;
            }
            let previous = next - ctrl.previouses[next] as usize;
            if Self::key_ratio(ctrl, animation.timepoints(), previous) > ratio {
                break;
            }
            track ='''))
ref('smp-position', P78, (SJ, '''        for entry in last_track..num_tracks {
            if (cache[entry] as usize) == target {
                return entry;
            }
        }
        for entry in 0..num_tracks {
            if (cache[entry] as usize) == target {
                return entry;
            }
            assert!(entry < last_track);
        }
        0''', '''        let mut entry = last_track;
        loop {
            if (cache[entry] as usize) == target {
                return entry;
            }
            entry = if entry + 1 == num_tracks { 0 } else { entry + 1 };
            assert!(entry != last_track);
        }'''))
ref('smp-mark-helper', P78, (SJ, '''            args.outdated[track / 32] |= 1 << ((track & 0x1F) / 4);
            args.entries[track] = next as u32;''', '''            Self::mark(args.outdated, track);
            args.entries[track] = next as u32;'''), (SJ, '''            args.outdated[track / 32] |= 1 << ((track & 0x1F) / 4);
            assert!((args.entries[track] as usize) == next - 1);''', '''            Self::mark(args.outdated, track);
            assert!((args.entries[track] as usize) == next - 1);'''), (SJ, '''    #[inline]
    fn track_forward(''', '''    #[inline]
    fn mark(outdated: &mut [u8], track: usize) {
        let group = track / 4;
        outdated[group / 8] |= 1 << (group % 8);
    }

    #[inline]
    fn track_forward('''))
ref('smp-lefts-map', P78, (SJ, '''                    let lefts = [
                        rights[0] - (ctrl.previouses[rights[0] as usize] as u32),
                        rights[1] - (ctrl.previouses[rights[1] as usize] as u32),
                        rights[2] - (ctrl.previouses[rights[2] as usize] as u32),
                        rights[3] - (ctrl.previouses[rights[3] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Float3Key''', '''                    let previous = |right: u32| right - (ctrl.previouses[right as usize] as u32);
                    let lefts = [previous(rights[0]), previous(rights[1]), previous(rights[2]), previous(rights[3])];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Float3Key'''))
ref('smp-outdate-fill', P78, (SJ, '''        let mut i = 0;
        while i < num_outdated_flags - 1 {
            outdated[i] = 0xFF;
            i += 1;
        }
        outdated[i] = 0xFF >> (num_outdated_flags * 8 - num_soa_tracks);''', '''        let last = num_outdated_flags - 1;
        outdated[..last].fill(0xFF);
        outdated[last] = 0xFF >> (num_outdated_flags * 8 - num_soa_tracks);'''))
ref('smp-outdate-for', P78, (SJ, '''        let mut i = 0;
        while i < num_outdated_flags - 1 {
            outdated[i] = 0xFF;
            i += 1;
        }
        outdated[i] =''', '''        for flags in outdated.iter_mut().take(num_outdated_flags - 1) {
            *flags = 0xFF;
        }
        outdated[num_outdated_flags - 1] ='''))
ref('smp-init-iter', P78, (SJ, '''            for i in 0..num_tracks {
                entries[i as usize] = i + num_tracks;
            }''', '''            for (i, entry) in entries.iter_mut().enumerate() {
                *entry = i as u32 + num_tracks;
            }'''))
ref('smp-interp-index', P78, (SJ, 'for (idx, out) in output.iter_mut().enumerate().take(animation.num_soa_tracks()) {', 'for idx in 0..animation.num_soa_tracks() {\n            let out = &mut output[idx];'))
ref('smp-interp-zip', P78, (SJ, '''        for (idx, out) in output.iter_mut().enumerate().take(animation.num_soa_tracks()) {
            let translation = &ctx.translations()[idx];''', '''        let count = animation.num_soa_tracks();
        let translations = ctx.translations();
        for (idx, (out, translation)) in output.iter_mut().zip(translations.iter()).enumerate().take(count) {'''))
ref('smp-ratio-helper', P78, (SJ, '''            let scale_ratio = (ratio4 - scale.ratio[0]) / (scale.ratio[1] - scale.ratio[0]);''', '''            let scale_ratio = Self::blend_ratio(ratio4, &scale.ratio);'''), (SJ, '''    fn interpolates(
''', '''    #[inline]
    fn blend_ratio(at: f32x4, keys: &[f32x4; 2]) -> f32x4 {
        let [begin, end] = *keys;
        (at - begin) / (end - begin)
    }

    fn interpolates(
'''))
ref('smp-flag-mask', P78, (SJ, '''            let mut outdated = args.outdated[j];
            for i in (8 * j)..(8 * j + 8) {
                if outdated & 1 != 0 {
                    let rights = &args.entries[i * 4..i * 4 + 4];
                    let lefts = [
                        rights[0] - (ctrl.previouses[rights[0] as usize] as u32),
                        rights[1] - (ctrl.previouses[rights[1] as usize] as u32),
                        rights[2] - (ctrl.previouses[rights[2] as usize] as u32),
                        rights[3] - (ctrl.previouses[rights[3] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    QuaternionKey''', '''            let mut outdated = args.outdated[j];
            for bit in 0..8 {
                let i = 8 * j + bit;
                let flagged = outdated & 1 != 0;
                if flagged {
                    let rights = &args.entries[i * 4..i * 4 + 4];
                    let lefts = [
                        rights[0] - (ctrl.previouses[rights[0] as usize] as u32),
                        rights[1] - (ctrl.previouses[rights[1] as usize] as u32),
                        rights[2] - (ctrl.previouses[rights[2] as usize] as u32),
                        rights[3] - (ctrl.previouses[rights[3] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    QuaternionKey'''))
ref('smp-early-id', P78, (SJ, '''        if ctx.animation_id() != animation_id {
            ctx.set_animation_id(animation_id);
            ctx.set_translation_next(0);
            ctx.set_rotation_next(0);
            ctx.set_scale_next(0);
        }
        let prev_ratio = ctx.ratio();
        ctx.set_ratio(ratio);
        prev_ratio''', '''        let prev_ratio = ctx.ratio();
        ctx.set_ratio(ratio);
        if ctx.animation_id() == animation_id {
            return prev_ratio;
        }
        ctx.set_scale_next(0);
        ctx.set_rotation_next(0);
        ctx.set_translation_next(0);
        ctx.set_animation_id(animation_id);
        prev_ratio'''))
ref('smp-bit-shift', P78, (SJ, '''            let mut outdated = args.outdated[j];
            for i in (8 * j)..(8 * j + 8) {
                if outdated & 1 != 0 {
                    let rights = &args.entries[i * 4..i * 4 + 4];
                    let lefts = [
                        rights[0] - (ctrl.previouses[rights[0] as usize] as u32),
                        rights[1] - (ctrl.previouses[rights[1] as usize] as u32),
                        rights[2] - (ctrl.previouses[rights[2] as usize] as u32),
                        rights[3] - (ctrl.previouses[rights[3] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Float3Key''', '''            let outdated = args.outdated[j];
            for k in 0..8 {
                let i = 8 * j + k;
                if outdated & (1 << k) != 0 {
                    let rights = &args.entries[i * 4..i * 4 + 4];
                    let lefts = [
                        rights[0] - (ctrl.previouses[rights[0] as usize] as u32),
                        rights[1] - (ctrl.previouses[rights[1] as usize] as u32),
                        rights[2] - (ctrl.previouses[rights[2] as usize] as u32),
                        rights[3] - (ctrl.previouses[rights[3] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Float3Key'''), (SJ, '''                    Float3Key::simd_decompress(&k01, &k11, &k21, &k31, &mut args.values[i].value[1]);
                }
                outdated >>= 1;
            }''', '''                    Float3Key::simd_decompress(&k01, &k11, &k21, &k31, &mut args.values[i].value[1]);
                }
            }'''))
ref('smp-gv4-loop', P78, (SJ, '''    let k0 = (prefix & 0x3) as usize;
    output[0] = load(in_buf) & MASK[k0];
    in_buf = &in_buf[k0 + 1..];
    let k1 = ((prefix >> 2) & 0x3) as usize;
    output[1] = load(in_buf) & MASK[k1];
    in_buf = &in_buf[k1 + 1..];
    let k2 = ((prefix >> 4) & 0x3) as usize;
    output[2] = load(in_buf) & MASK[k2];
    in_buf = &in_buf[k2 + 1..];
    let k3 = (prefix >> 6) as usize;
    output[3] = load(in_buf) & MASK[k3];
    in_buf = &in_buf[k3 + 1..];
    in_buf''', '''    for (i, out) in output.iter_mut().enumerate() {
        let k = ((prefix >> (2 * i)) & 0x3) as usize;
        *out = load(in_buf) & MASK[k];
        in_buf = &in_buf[k + 1..];
    }
    in_buf'''))
bug('smp-flag-group', P78, (SJ, '''            args.outdated[track / 32] |= 1 << ((track & 0x1F) / 4);
            args.entries[track] = next as u32;''', '''            args.outdated[track / 32] |= 1 << ((track & 0x0F) / 4);
            args.entries[track] = next as u32;'''))
bug('smp-back-noflag', 'C07', (SJ, '''            args.outdated[track / 32] |= 1 << ((track & 0x1F) / 4);
            assert!((args''', '''            if next > args.num_tracks * 3 {
                args.outdated[track / 32] |= 1 << ((track & 0x1F) / 4);
            }
            assert!((args'''))
bug('smp-no-scale-reset', 'C07', (SJ, '''            ctx.set_rotation_next(0);
            ctx.set_scale_next(0);
        }''', '''            ctx.set_rotation_next(0);
        }'''))
bug('smp-fwd-lt', P78, (SJ, 'next - ctrl.previouses[next] as usize) <= ratio', 'next - ctrl.previouses[next] as usize) < ratio'))
bug('smp-back-ge', P78, (SJ, '        ) > ratio\n', '        ) >= ratio\n'))
bug('smp-fwd-self', P78, (SJ, 'next - ctrl.previouses[next] as usize) <= ratio', 'next) <= ratio'))
bug('smp-outdate-last', 'C07', (SJ, 'outdated[i] = 0xFF >> (num_outdated_flags * 8 - num_soa_tracks);', 'outdated[i] = 0xFF >> (num_outdated_flags * 8 - num_soa_tracks + 1).min(7);'))
bug('smp-outdate-none', 'C07', (SJ, '                Self::outdate_cache(args.outdated, args.num_soa_tracks);\n', '                if next != 0 {\n                    Self::outdate_cache(args.outdated, args.num_soa_tracks);\n                }\n') if False else (SJ, '                Self::outdate_cache(args.outdated, args.num_soa_tracks);\n', '                if iframe == 0 {\n                    Self::outdate_cache(args.outdated, args.num_soa_tracks);\n                }\n'))
bug('smp-iframe-next', 'C07', (SJ, '(ctrl.iframe_desc[iframe + 1] + 1) as usize', '(ctrl.iframe_desc[iframe + 1]) as usize'))
bug('smp-iframe-pair', 'C07', (SJ, 'let offset = ctrl.iframe_desc[iframe] as usize;', 'let offset = ctrl.iframe_desc[iframe & !3] as usize;'))
bug('smp-init-cond', 'C07', (SJ, '} else if next == 0 || delta < 0.0 {', '} else if delta < 0.0 {'))
bug('smp-left-lane', 'C08', (SJ, '''                        rights[3] - (ctrl.previouses[rights[3] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Quat''', '''                        rights[3] - (ctrl.previouses[rights[2] as usize] as u32),
                    ];

                    let k00 = compressed[lefts[0] as usize];
                    let k10 = compressed[lefts[1] as usize];
                    let k20 = compressed[lefts[2] as usize];
                    let k30 = compressed[lefts[3] as usize];
                    args.values[i].ratio[0] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Quat'''))
bug('smp-ratio-right', 'C08', (SJ, '''                    args.values[i].ratio[1] = Self::key_ratio_simd(ctrl, timepoints, rights);
                    Quat''', '''                    args.values[i].ratio[1] = Self::key_ratio_simd(ctrl, timepoints, &lefts);
                    Quat'''))
bug('smp-simd-ratio', 'C08', (SJ, '            timepoints[ctrl.ratios[ats[3] as usize] as usize],', '            timepoints[ctrl.ratios[ats[2] as usize] as usize],'))
bug('smp-scale-ratio', 'C08', (SJ, 'out.scale = SoaVec3::lerp(&scale.value[0], &scale.value[1], scale_ratio);', 'out.scale = SoaVec3::lerp(&scale.value[0], &scale.value[1], translation_ratio);'))
bug('smp-nlerp', 'C08', ('math.rs', '        let inv_len = len2.sqrt().recip();\n        SoaQuat {\n            x: lerp_x', '        let inv_len = len2.recip();\n        SoaQuat {\n            x: lerp_x'))
bug('smp-gv4', 'C08', (SJ, '    let k1 = ((prefix >> 2) & 0x3) as usize;\n    output[1] = load(in_buf) & MASK[k1];\n    in_buf = &in_buf[k1 + 1..];', '    let k1 = ((prefix >> 2) & 0x3) as usize;\n    output[1] = load(in_buf) & MASK[k1];\n    in_buf = &in_buf[k0 + 1..];'))
bug('smp-quat-table', 'C08', (SJ, 'Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());', 'Self::decompress_quat(args, anim.timepoints(), &anim.scales_ctrl(), anim.rotations());'))
bug('smp-shift-after', P78, (SJ, '''                    Float3Key::simd_decompress(&k01, &k11, &k21, &k31, &mut args.values[i].value[1]);
                }
                outdated >>= 1;''', '''                    Float3Key::simd_decompress(&k01, &k11, &k21, &k31, &mut args.values[i].value[1]);
                    outdated >>= 1;
                }'''))
bug('smp-next-late', 'C07', (SJ, '        *args.next = next;\n', '        if delta != 0.0 {\n            *args.next = next;\n        }\n'))
bug('smp-id-late', 'C07', (SJ, 'if ctx.animation_id() != animation_id {', 'if ctx.animation_id() != animation_id && ctx.animation_id() != 0 {'))
# ---------------------------------------------------------------- C18
TSJ = 'track_sampling_job.rs'
TS_OLD = '''            let id1 = track
                .ratios()
                .iter()
                .position(|&x| self.ratio < x)
                .unwrap_or(track.key_count());
            let id0 = id1.saturating_sub(1);
'''
ref('ts-pp', 'C18', (TSJ, TS_OLD, '''            let id1 = track.ratios().partition_point(|&x| x <= self.ratio);
            let id0 = id1.saturating_sub(1);
'''))
ref('ts-for', 'C18', (TSJ, TS_OLD, '''            let mut id1 = track.key_count();
            for (i, r) in track.ratios().iter().enumerate() {
                if *r > self.ratio {
                    id1 = i;
                    break;
                }
            }
            let id0 = if id1 == 0 { 0 } else { id1 - 1 };
'''))
ref('ts-while', 'C18', (TSJ, TS_OLD, '''            let ratios = track.ratios();
            let mut id1 = 0;
            while id1 < ratios.len() && !(self.ratio < ratios[id1]) {
                id1 += 1;
            }
            let id0 = id1.saturating_sub(1);
'''))
ref('ts-clamp', 'C18', (TSJ, '''        } else if track.ratios().len() == 1 || self.ratio < 0.0 {
            self.result = *track.values().first().unwrap();
        } else if self.ratio > 1.0 {
            self.result = *track.values().last().unwrap();
        } else {
''', '''        } else {
            let ratio = self.ratio.clamp(0.0, 1.0);
'''), (TSJ, 'self.ratio < x', 'ratio < x'), (TSJ, '(self.ratio - tk0)', '(ratio - tk0)'))
ref('ts-helper', 'C18', (TSJ, TS_OLD, '''            let id1 = Self::upper_bound(track.ratios(), self.ratio);
            let id0 = id1.saturating_sub(1);
'''), (TSJ, '''    /// Runs track sampling job's task.''', '''    #[inline]
    fn upper_bound(ratios: &[f32], ratio: f32) -> usize {
        ratios.iter().position(|&x| ratio < x).unwrap_or(ratios.len())
    }

    /// Runs track sampling job's task.'''))
ref('ts-bit', 'C18', (TSJ, '(track.steps()[id0 / 8] & (1 << (id0 & 7))) != 0', '(track.steps()[id0 >> 3] >> (id0 % 8)) & 1 == 1'))
ref('ts-value', 'C18', (TSJ, '''            if id0_step || id1 == track.key_count() {
                self.result = track.values()[id0];
            } else {
                let tk0''', '''            self.result = if id0_step || id1 == track.key_count() {
                track.values()[id0]
            } else {
                let tk0'''), (TSJ, '''                self.result = V::lerp(v0, v1, t);
            }''', '''                V::lerp(v0, v1, t)
            };'''))
ref('ts-vec-ops', 'C18', ('track.rs', 'Vec3::lerp(a, b, t)', 'a + (b - a) * t'), ('track.rs', 'Quat::lerp(a, b, t)', 'a.lerp(b, t)'), ('track.rs', 'a + (b - a) * t', 'a * (1.0 - t) + b * t'))
ref('ts-index', 'C18', (TSJ, '*track.values().first().unwrap()', 'track.values()[0]'), (TSJ, '*track.values().last().unwrap()', 'track.values()[track.values().len() - 1]'),
    (TSJ, 'track.ratios().len() == 0', 'track.ratios().is_empty()'))
ref('ts-match', 'C18', (TSJ, '''        } else if track.ratios().len() == 1 || self.ratio < 0.0 {
            self.result = *track.values().first().unwrap();
        } else if self.ratio > 1.0 {''', '''        } else if self.ratio < 0.0 {
            self.result = track.values()[0];
        } else if self.ratio >= 1.0 {'''))
bug('ts-le', 'C18', (TSJ, 'self.ratio < x', 'self.ratio <= x'))
bug('ts-bit-le', 'C18', (TSJ, '(1 << (id0 & 7))', '(0x80 >> (id0 & 7))'))
bug('ts-bit-7', 'C18', (TSJ, 'id0 & 7', 'id0 & 3'))
bug('ts-step-next', 'C18', (TSJ, 'track.steps()[id0 / 8] & (1 << (id0 & 7))', 'track.steps()[id1 / 8] & (1 << (id1 & 7))'))
bug('ts-frac', 'C18', (TSJ, '(self.ratio - tk0) / (tk1 - tk0)', '(self.ratio - tk0) / (1.0 - tk0)'))
bug('ts-swap', 'C18', (TSJ, 'V::lerp(v0, v1, t)', 'V::lerp(v1, v0, t)'))
bug('ts-last-first', 'C18', (TSJ, '*track.values().last().unwrap()', '*track.values().first().unwrap()'))
bug('ts-stale', 'C18', (TSJ, '            self.result = V::default();\n        } else if', '        } else if'))
bug('ts-lerp', 'C18', ('track.rs', 'Vec2::lerp(a, b, t)', 'Vec2::lerp(a, b, t.min(0.5))'))
bug('ts-slerp', 'C18', ('track.rs', 'Quat::lerp(a, b, t)', 'Quat::slerp(a, b, t)'))
bug('ts-half', 'C18', (TSJ, 'self.ratio < 0.0', 'self.ratio < 0.5'))
bug('ts-window', 'C18', (TSJ, '                .position(|&x| self.ratio < x)', '                .take(255)\n                .position(|&x| self.ratio < x)'))

# ------------------------------------------------------------------ C21 compressed keys
AN, MA = 'animation.rs', 'math.rs'
ref('ck-half-direct', 'C21', (MA, '''    if expo == 0x7C00 {
        let base = (n & 0x03FF) as u32;
        if base != 0 {
            return f32::NAN;
        }
        if sign == 0x8000 {
            return f32::NEG_INFINITY;
        } else {
            return f32::INFINITY;
        }
    }
''', '''    if expo >= 0x7C00 {
        return f32::from_bits((sign << 16) | 0x7F80_0000 | ((n & 0x03FF) as u32) << 13);
    }
'''))
ref('ck-half-scalar-lanes', 'C21', (AN, '    pub fn simd_decompress(k0: &Float3Key, k1: &Float3Key, k2: &Float3Key, k3: &Float3Key, soa: &mut SoaVec3) {\n', '''    pub fn simd_decompress(k0: &Float3Key, k1: &Float3Key, k2: &Float3Key, k3: &Float3Key, soa: &mut SoaVec3) {
        let column = |i: usize| [k0.0[i], k1.0[i], k2.0[i], k3.0[i]];
'''), (AN, 'soa.y = simd_f16_to_f32([k0.0[1], k1.0[1], k2.0[1], k3.0[1]]);', 'soa.y = simd_f16_to_f32(column(1));'))
ref('ck-half-ge', 'C21', (MA, 'i32x4::from_array([0x7BFF; 4])', 'i32x4::from_array([0x7C00; 4])'), (MA, 'i32x4::simd_gt(expmant, WAS_INFNAN)', 'i32x4::simd_ge(expmant, WAS_INFNAN)'))
ref('ck-half-lanes', 'C21', (MA, 'let int4 = i32x4::from([half4[0] as i32, half4[1] as i32, half4[2] as i32, half4[3] as i32]);', 'let int4 = i32x4::from(half4.map(|h| h as i32));'))
ref('ck-half-sign', 'C21', (MA, 'let sign = (int4 ^ expmant) << 16;', 'let sign = (int4 & i32x4::splat(0x8000)) << 16;'))
ref('ck-half-const', 'C21', (MA, 'let magic = f32::from_bits((254 - 15) << 23);', 'let magic = 5192296858534827628530496329220096.0f32;'), (MA, 'i32x4::from_array([255 << 23; 4])', 'i32x4::from_array([0x7F80_0000; 4])'))
ref('ck-unpack-u64', 'C21', (AN, '''        let packed: u32 = ((self.0[0] as u32) >> 3) | ((self.0[1] as u32) << 13) | ((self.0[2] as u32) << 29);
''', '''        let packed: u64 = (self.0[0] as u64) | ((self.0[1] as u64) << 16) | ((self.0[2] as u64) << 32);
'''), (AN, 'let value = [packed & 0x7fff, (packed >> 15) & 0x7fff, (self.0[2] as u32) >> 1];',
         'let value = [(packed >> 3) as u32 & 0x7fff, (packed >> 18) as u32 & 0x7fff, (packed >> 33) as u32];'))
ref('ck-map-any', 'C21', (AN, '[0, 1, 2, 0]', '[0, 1, 2, 1]'), (AN, '[0, 1, 2, 0]', '[0, 1, 2, 2]'), (AN, '[[0, 0, 1, 2]', '[[2, 0, 1, 2]'))
ref('ck-offset', 'C21', (AN, 'const OFFSET: f32 = -core::f32::consts::SQRT_2 / 2.0;', 'const OFFSET: f32 = -core::f32::consts::FRAC_1_SQRT_2;'),
    (AN, 'SCALE * (cmp_keys[1] as f32) + OFFSET', 'OFFSET + (cmp_keys[1] as f32) * SCALE'))
ref('ck-dot', 'C21', (AN, 'let ww0 = f32::max(0.0, 1f32 - dot);', 'let ww0 = (1.0 - dot).max(0.0);'), (AN, 'let restored = if sign == 0 { w0 } else { -w0 };', 'let restored = if sign != 0 { -w0 } else { w0 };'))
ref('ck-loop', 'C21', (AN, '''        let mut cpnt = Vec4::new(
            SCALE * (cmp_keys[0] as f32) + OFFSET,
            SCALE * (cmp_keys[1] as f32) + OFFSET,
            SCALE * (cmp_keys[2] as f32) + OFFSET,
            SCALE * (cmp_keys[3] as f32) + OFFSET,
        );
''', '''        let restore = |v: u32| SCALE * (v as f32) + OFFSET;
        let mut cpnt = Vec4::from_array([restore(cmp_keys[0]), restore(cmp_keys[1]), restore(cmp_keys[2]), restore(cmp_keys[3])]);
'''))
ref('ck-noop', 'C21', (AN, '        let ww0 =  f32x4', '        let _ = sign0;\n        let ww0 =  f32x4'), (MA, '    let expmant = (n & 0x7FFF) as u32;', '    let _ = n;\n    let expmant = (n & 0x7FFF) as u32;'))
bug('ck-limit', 'C21', (MA, 'i32x4::from_array([0x7BFF; 4])', 'i32x4::from_array([0x7BFE; 4])'))
bug('ck-magic', 'C21', (MA, 'f32::from_bits((254 - 15) << 23)', 'f32::from_bits((254 - 16) << 23)'))
bug('ck-nan-inf', 'C21', (MA, '        if base != 0 {\n            return f32::NAN;\n        }\n', '        let _ = base;\n'))
bug('ck-neg-inf', 'C21', (MA, 'if sign == 0x8000 {', 'if sign == 0x800 {'))
bug('ck-mask-mantissa', 'C21', (MA, '(n & 0x03FF) as u32', '(n & 0x01FF) as u32'))
bug('ck-lane-swap', 'C21', (AN, '[k0.0[2], k1.0[2], k2.0[2], k3.0[2]]', '[k0.0[2], k1.0[2], k3.0[2], k2.0[2]]'))
bug('ck-shift', 'C21', (AN, '((self.0[2] as u32) << 29)', '((self.0[2] as u32) << 30)'))
bug('ck-hi-bit', 'C21', (AN, '(packed >> 15) & 0x7fff', '(packed >> 15) & 0x3fff'))
bug('ck-map', 'C21', (AN, '[0, 1, 0, 2]', '[0, 1, 0, 1]'))
bug('ck-sign', 'C21', (AN, 'sign2 as i32, sign3 as i32', 'sign3 as i32, sign2 as i32'))
bug('ck-sign-always', 'C21', (AN, 'let restored = if sign == 0 { w0 } else { -w0 };', 'let restored = if sign == 0 || largest == 3 { w0 } else { -w0 };'))
bug('ck-no-max', 'C21', (AN, 'let ww0 = f32::max(0.0, 1f32 - dot);', 'let ww0 = 1f32 - dot;'))
bug('ck-simd-mask', 'C21', (AN, 'ix4(cpnt[largest2 as usize]) | (restored & MASK_00F0)', 'ix4(cpnt[largest2 as usize]) | (restored & MASK_000F)'))
bug('ck-simd-clear', 'C21', (AN, 'cpnt[largest3 as usize] = fx4(ix4(cpnt[largest3 as usize]) & !MASK_000F);\n', ''))
bug('ck-same-largest', 'C21', (AN, '        let w0 = ww0.sqrt();\n        let sign = i32x4', '        let w0 = if largest0 == largest1 && largest1 == largest2 && largest2 == largest3 && largest0 == 1 { ww0 } else { ww0.sqrt() };\n        let sign = i32x4'))
bug('ck-scale', 'C21', (AN, 'f32x4::from_array([core::f32::consts::SQRT_2 / 32767.0; 4])', 'f32x4::from_array([core::f32::consts::SQRT_2 / 32768.0; 4])'))
ref('ck-for', 'C21', (AN, """        let mut cpnt = Vec4::new(
            SCALE * (cmp_keys[0] as f32) + OFFSET,
            SCALE * (cmp_keys[1] as f32) + OFFSET,
            SCALE * (cmp_keys[2] as f32) + OFFSET,
            SCALE * (cmp_keys[3] as f32) + OFFSET,
        );
""", """        let mut cpnt = Vec4::ZERO;
        for i in 0..4 {
            cpnt[i] = SCALE * (cmp_keys[i] as f32) + OFFSET;
        }
"""), (AN, """        let mut cpnt = [
            SCALE * cmp_keys[0] + OFFSET,
            SCALE * cmp_keys[1] + OFFSET,
            SCALE * cmp_keys[2] + OFFSET,
            SCALE * cmp_keys[3] + OFFSET,
        ];
""", """        let mut cpnt = [ZERO; 4];
        for (c, k) in cpnt.iter_mut().zip(cmp_keys.iter()) {
            *c = SCALE * *k + OFFSET;
        }
"""))
ref('ck-while', 'C21', (AN, """        cpnt[largest as usize] = 0.0;

        let dot = cpnt[0] * cpnt[0] + cpnt[1] * cpnt[1] + cpnt[2] * cpnt[2] + cpnt[3] * cpnt[3];
""", """        let mut dot = 0.0;
        let mut i = 0;
        while i < 4 {
            if i != largest as usize {
                dot += cpnt[i] * cpnt[i];
            }
            i += 1;
        }
"""), (AN, """        cpnt[largest0 as usize] = fx4(ix4(cpnt[largest0 as usize]) & !MASK_F000);
        cpnt[largest1 as usize] = fx4(ix4(cpnt[largest1 as usize]) & !MASK_0F00);
        cpnt[largest2 as usize] = fx4(ix4(cpnt[largest2 as usize]) & !MASK_00F0);
        cpnt[largest3 as usize] = fx4(ix4(cpnt[largest3 as usize]) & !MASK_000F);
""", """        for (l, m) in [(largest0, MASK_F000), (largest1, MASK_0F00), (largest2, MASK_00F0), (largest3, MASK_000F)] {
            cpnt[l as usize] = fx4(ix4(cpnt[l as usize]) & !m);
        }
"""))

# ------------------------------------------------------------------ C19 motion blending
MB = 'motion_blending_job.rs'
ref('mb-positive', 'C19', (MB, '''            if weight <= 0.0 {
                continue;
            }
            acc_weight += weight;
''', '''            if !(weight > 0.0) {
                continue;
            }
            acc_weight += weight;
'''), (MB, 'for layer in &self.layers {', 'for layer in self.layers.iter() {'))
ref('mb-index', 'C19', (MB, '        for layer in &self.layers {', '        for i in 0..self.layers.len() {\n            let layer = &self.layers[i];'))
ref('mb-side', 'C19', (MB, 'let signed_weight = weight.copysign(if dot >= 0.0 { 1.0 } else { -1.0 });', 'let signed_weight = if dot < 0.0 { -weight } else { weight };'))
ref('mb-dot', 'C19', (MB, 'let dot = dr.dot(rot_vec);', 'let dot = dr.x * rot_vec.x + dr.y * rot_vec.y + dr.z * rot_vec.z + dr.w * rot_vec.w;'))
ref('mb-len', 'C19', (MB, '            let len = layer.delta.translation.length();\n', '            let t = layer.delta.translation;\n            let len = t.length_squared().sqrt();\n'),
    (MB, 'let denom = if len == 0.0 { 0.0 } else { weight / len };', 'let denom = if len > 0.0 { weight / len } else { 0.0 };'), (MB, 'dt += layer.delta.translation * denom;', 'dt = dt + t * denom;'))
ref('mb-out', 'C19', (MB, '        self.output.scale = Vec3A::ONE;\n', ''), (MB, '''            self.output.rotation = Quat::from_vec4(dr).normalize();
        } else {
            self.output.rotation = Quat::IDENTITY;
        }
''', '''            self.output.rotation = Quat::from_vec4(dr.normalize());
        }
'''))
ref('mb-norm', 'C19', (MB, '''        let norm = if denom == 0.0 { 0.0 } else { dl / denom };
        self.output.translation = dt * norm;
''', '''        self.output.translation = if denom != 0.0 { dt * (dl / denom) } else { Vec3A::ZERO };
'''))
ref('mb-noop', 'C19', (MB, '            acc_weight += weight;\n', '            acc_weight += weight;\n            let _ = acc_weight;\n'))
ref('mb-filter', 'C19', (MB, '''        for layer in &self.layers {
            let weight = layer.weight;
            if weight <= 0.0 {
                continue;
            }
''', '''        for layer in self.layers.iter().filter(|l| l.weight > 0.0) {
            let weight = layer.weight;
'''))
ref('mb-struct', 'C19', (MB, '        self.output.translation = dt * norm;\n', '        let translation = dt * norm;\n'), (MB, '''        if dr.length_squared() != 0.0 {
            self.output.rotation = Quat::from_vec4(dr).normalize();
        } else {
            self.output.rotation = Quat::IDENTITY;
        }

        self.output.scale = Vec3A::ONE;
''', '''        let rotation = if dr.length_squared() != 0.0 { Quat::from_vec4(dr).normalize() } else { Quat::IDENTITY };
        self.output = Transform3A { translation, rotation, scale: Vec3A::ONE };
'''))
bug('mb-neg', 'C19', (MB, 'if weight <= 0.0 {', 'if weight == 0.0 {'))
bug('mb-acc', 'C19', (MB, 'let denom = dt.length() * acc_weight;', 'let denom = dt.length() * acc_weight.max(1.0);'))
bug('mb-w-late', 'C19', (MB, '            acc_weight += weight;\n', '            if layer.delta.translation.length() > 0.0 {\n                acc_weight += weight;\n            }\n'))
bug('mb-dot0', 'C19', (MB, 'dot >= 0.0', 'dot > 0.0'))
bug('mb-first', 'C19', (MB, 'for layer in &self.layers {', 'for layer in self.layers.iter().take(8) {'))
bug('mb-nozero', 'C19', (MB, 'let norm = if denom == 0.0 { 0.0 } else { dl / denom };', 'let norm = dl / denom;'))
bug('mb-lenw', 'C19', (MB, 'dl += len * weight;', 'dl += len;'))
bug('mb-dot-w', 'C19', (MB, 'let dot = dr.dot(rot_vec);', 'let dot = dr.truncate().dot(rot_vec.truncate());'))
bug('mb-keep-rot', 'C19', (MB, '''        } else {
            self.output.rotation = Quat::IDENTITY;
        }
''', '''        }
'''), (MB, 'self.output = Transform3A::IDENTITY;', 'self.output.translation = Vec3A::ZERO;'))
bug('mb-scale', 'C19', (MB, 'self.output.scale = Vec3A::ONE;', 'self.output.scale = Vec3A::splat(acc_weight);'))
bug('mb-break', 'C19', (MB, '''            if weight <= 0.0 {
                continue;
''', '''            if weight <= 0.0 {
                break;
'''))
bug('mb-eps', 'C19', (MB, 'if dr.length_squared() != 0.0 {', 'if dr.length_squared() > 1.0 {'))

# ---- C20
SK = 'skeleton.rs'
W = '''        let mut i = if from.i32() < 0 { 0 } else { from.usize() };
        let mut process = i < self.num_joints();
        while process {
            f(i as i16, self.joint_parent(i));
            i += 1;
            process = i < self.num_joints() && (self.joint_parent(i) as i32 >= from.i32());
        }
'''
R = '''        for i in (0..self.num_joints()).rev() {
            let parent = self.joint_parent(i);
            f(i as i16, parent);
        }
'''
LF = '''        let next = joint.usize() + 1;
        next == self.num_joints() || (self.joint_parents()[next] as i32 != joint.i32())
'''
ref('sk-max', 'C20', (SK, W, '''        let first = from.i32().max(0) as usize;
        let end = self.num_joints();
        for i in first..end {
            if i != first && (self.joint_parent(i) as i32) < from.i32() {
                break;
            }
            f(i as i16, self.joint_parent(i));
        }
'''))
ref('sk-return', 'C20', (SK, W, '''        let from_i32 = from.i32();
        let parents = self.joint_parents();
        let mut i = if from_i32 >= 0 { from.usize() } else { 0 };
        if i >= parents.len() {
            return;
        }
        loop {
            let parent = parents[i];
            f(i as i16, parent);
            i += 1;
            if i >= parents.len() {
                return;
            }
            if (parents[i] as i32) < from_i32 {
                return;
            }
        }
'''))
ref('sk-helper', 'C20', (SK, W, '''        let mut i = if from.i32() < 0 { 0 } else { from.usize() };
        let mut process = i < self.num_joints();
        while process {
            f(i as i16, self.joint_parent(i));
            i += 1;
            process = self.is_in_subtree(i, from.i32());
        }
'''), (SK, '    /// Iterates through the joint hierarchy in reverse', '''    #[inline]
    fn is_in_subtree(&self, joint: usize, from: i32) -> bool {
        if joint < self.num_joints() {
            i32::from(self.joint_parents()[joint]) >= from
        } else {
            false
        }
    }

    /// Iterates through the joint hierarchy in reverse'''))
ref('sk-rev-while', 'C20', (SK, R, '''        let mut i = self.num_joints();
        while i > 0 {
            i -= 1;
            f(i as i16, self.joint_parent(i));
        }
'''))
ref('sk-rev-enum', 'C20', (SK, R, '''        for (i, parent) in self.joint_parents().iter().enumerate().rev() {
            f(i as i16, *parent);
        }
'''))
ref('sk-leaf-if', 'C20', (SK, LF, '''        let next = joint.usize() + 1;
        if next >= self.num_joints() {
            return true;
        }
        let parent = self.joint_parent(next) as i32;
        parent != joint.i32()
'''))
ref('sk-leaf-get', 'C20', (SK, LF, '''        let next = joint.usize() + 1;
        match self.joint_parents().get(next) {
            Some(parent) => *parent as i32 != joint.i32(),
            None => true,
        }
'''))
ref('sk-names', 'C20', (SK, 'self.joint_names.get_by_left(name).copied()', 'match self.joint_names.get_by_left(name) {\n            Some(idx) => Some(*idx),\n            None => None,\n        }'),
    (SK, 'self.joint_names.get_by_right(&index).map(|s| s.as_str())', 'self.joint_names().get_by_right(&index).map(String::as_str)'))
ref('sk-aligned', 'C20', (SK, '(self.num_joints() + 3) & !0x3', 'self.num_joints().div_ceil(4) * 4'))
ref('sk-aligned2', 'C20', (SK, '(self.num_joints() + 3) & !0x3', 'self.num_joints().next_multiple_of(4)'))
bug('sk-sub', 'C20', (SK, 'process = i < self.num_joints() && (self.joint_parent(i) as i32 >= from.i32());', 'process = i < self.num_joints() && (self.joint_parent(i) as i32 > from.i32());'))
bug('sk-neg', 'C20', (SK, 'let mut i = if from.i32() < 0 { 0 } else { from.usize() };', 'let mut i = if from.i32() < 0 { 1 } else { from.usize() };'))
bug('sk-unsigned', 'C20', (SK, '(self.joint_parent(i) as i32 >= from.i32())', '(self.joint_parent(i) as u32 >= from.i32() as u32)'))
bug('sk-u8', 'C20', (SK, 'f(i as i16, self.joint_parent(i));', 'f(i as u8 as i16, self.joint_parent(i));'))
bug('sk-first-parent', 'C20', (SK, 'let mut process = i < self.num_joints();', 'let mut process = i < self.num_joints() && self.joint_parent(i) as i32 >= from.i32();'))
bug('sk-parent-prev', 'C20', (SK, 'f(i as i16, self.joint_parent(i));', 'f(i as i16, self.joint_parent(i.saturating_sub(1)));'))
bug('sk-skip', 'C20', (SK, 'f(i as i16, self.joint_parent(i));', 'if self.joint_parent(i) >= -1 && i != 64 {\n                f(i as i16, self.joint_parent(i));\n            }'))
bug('sk-rev-1', 'C20', (SK, 'for i in (0..self.num_joints()).rev() {', 'for i in (1..self.num_joints()).rev() {'))
bug('sk-rev-root', 'C20', (SK, '            f(i as i16, parent);\n', '            if parent < 0 && i > 0 {\n                break;\n            }\n            f(i as i16, parent);\n'))
bug('sk-leaf-last', 'C20', (SK, 'next == self.num_joints() ||', 'next + 1 >= self.num_joints() ||'))
bug('sk-leaf-root', 'C20', (SK, 'self.joint_parents()[next] as i32 != joint.i32()', 'self.joint_parents()[next] as i32 != joint.i32().max(1)'))
bug('sk-name-case', 'C20', (SK, 'self.joint_names.get_by_left(name).copied()', 'self.joint_names.get_by_left(name.trim()).copied()'))
bug('sk-name-0', 'C20', (SK, 'self.joint_names.get_by_left(name).copied()', 'self.joint_names.get_by_left(name).copied().filter(|x| *x > 0)'))
bug('sk-idx-i16', 'C20', ('base.rs', '            fn i32(&self) -> i32 {\n                *self as i32\n', '            fn i32(&self) -> i32 {\n                *self as i16 as i32\n'))
bug('sk-aligned-7', 'C20', (SK, '(self.num_joints() + 3) & !0x3', '(self.num_joints() + 4) & !0x3'))
bug('ltm-unsigned', 'C17', ('local_to_model_job.rs', 'process = idx < end && skeleton.joint_parent(idx) as i32 >= self.from;', 'process = idx < end && skeleton.joint_parent(idx) as u32 >= self.from as u32;'))
ref('ltm-unsigned-ok', 'C17', ('local_to_model_job.rs', 'process = idx < end && skeleton.joint_parent(idx) as i32 >= self.from;', 'process = idx < end && (self.from < 0 || (skeleton.joint_parent(idx) >= 0 && skeleton.joint_parent(idx) as usize >= self.from as usize));'))

# C22: pose math types
MA = 'math.rs'
ref('pm-set-array', 'C22', (MA, '        self.x[idx] = v.x;\n        self.y[idx] = v.y;\n        self.z[idx] = v.z;', '        let [a, b, c] = v.to_array();\n        self.z[idx] = c;\n        self.x[idx] = a;\n        self.y[idx] = b;'))
ref('pm-set-mutarray', 'C22', (MA, '        self.x[idx] = v.x;\n        self.y[idx] = v.y;\n        self.z[idx] = v.z;', '        self.x.as_mut_array()[idx] = v.x;\n        self.y.as_mut_array()[idx] = v.y;\n        self.z.as_mut_array()[idx] = v.z;'))
ref('pm-get-array', 'C22', (MA, 'Vec3::new(self.x[idx], self.y[idx], self.z[idx])', 'Vec3::from_array([self.x.to_array()[idx], self.y.as_array()[idx], self.z[idx]])'))
ref('pm-neg-helper', 'C22', (MA, '            x: -self.x,\n            y: -self.y,\n            z: -self.z,\n        }\n    }\n\n    #[inline]\n    pub fn add', '            x: ZERO - self.x,\n            y: self.y * NEG_ONE,\n            z: -self.z,\n        }\n    }\n\n    #[inline]\n    pub fn add'))
ref('pm-sub-neg', 'C22', (MA, '            x: self.x - other.x,\n            y: self.y - other.y,\n            z: self.z - other.z,\n', '            x: self.x + (-other.x),\n            y: -(other.y - self.y),\n            z: self.z - other.z,\n'))
ref('pm-quat-norm', 'C22', (MA, '        let len2 = self.x * self.x + self.y * self.y + self.z * self.z + self.w * self.w;\n        let inv_len = len2.sqrt().recip();', '        let inv_len = ONE / self.dot(self).sqrt();'))
ref('pm-quat-norm-call', 'C22', (MA, '        let lerp_x = (other.x - self.x) * f + self.x;\n        let lerp_y = (other.y - self.y) * f + self.y;\n        let lerp_z = (other.z - self.z) * f + self.z;\n        let lerp_w = (other.w - self.w) * f + self.w;\n        let len2 = lerp_x * lerp_x + lerp_y * lerp_y + lerp_z * lerp_z + lerp_w * lerp_w;\n        let inv_len = len2.sqrt().recip();\n        SoaQuat {\n            x: lerp_x * inv_len,\n            y: lerp_y * inv_len,\n            z: lerp_z * inv_len,\n            w: lerp_w * inv_len,\n        }', '        self.mul_num(ONE - f).add(&other.mul_num(f)).normalize()'))
ref('pm-positive-select', 'C22', (MA, '        let sign = fx4_sign(self.w);\n        SoaQuat {\n            x: fx4_xor(self.x, sign),\n            y: fx4_xor(self.y, sign),\n            z: fx4_xor(self.z, sign),\n            w: fx4_xor(self.w, sign),', '        let neg = self.w.simd_lt(ZERO);\n        SoaQuat {\n            x: neg.select(-self.x, self.x),\n            y: neg.select(-self.y, self.y),\n            z: neg.select(-self.z, self.z),\n            w: neg.select(-self.w, self.w),'))
ref('pm-tr-inline', 'C22', (MA, '        Transform3A {\n            translation: self.translation.vec3(idx).into(),\n            rotation: self.rotation.quat(idx),', '        let t = &self.translation;\n        Transform3A {\n            translation: Vec3A::new(t.x[idx], t.y[idx], t.z[idx]),\n            rotation: self.rotation.quat(idx),'))
ref('pm-const', 'C22', (MA, 'pub const ONE: SoaVec3 = SoaVec3::splat(1.0);', 'pub const ONE: SoaVec3 = SoaVec3::new([1.0; 4], [1.0; 4], [1.0; 4]);'))
ref('pm-noop', 'C22', (MA, '        let sign = fx4_sign(self.w);\n        SoaQuat {', '        let _ = self.w;\n        let sign = fx4_sign(self.w);\n        SoaQuat {'))
bug('pm-set-lane', 'C22', (MA, '        self.x[idx] = q.x;\n        self.y[idx] = q.y;\n        self.z[idx] = q.z;\n        self.w[idx] = q.w;', '        self.x[idx] = q.x;\n        self.y[idx] = q.y;\n        self.z[idx] = q.z;\n        self.w[idx & 1] = q.w;'))
bug('pm-set-splat', 'C22', (MA, '        self.scale.set_vec3(idx, transform.scale.into());', '        self.scale = SoaVec3::splat_vec3(transform.scale.into());'))
bug('pm-set-swapped', 'C22', (MA, '        self.scale.set_vec3(idx, transform.scale.into());', '        self.scale.set_vec3(idx, transform.translation.into());'))
bug('pm-get-lane', 'C22', (MA, 'Quat::from_xyzw(self.x[idx], self.y[idx], self.z[idx], self.w[idx])', 'Quat::from_xyzw(self.x[idx], self.y[idx], self.z[idx], self.w[0])'))
bug('pm-mul-term', 'C22', (MA, 'let y = self.w * other.y + self.y * other.w + self.z * other.x - self.x * other.z;', 'let y = self.w * other.y + self.y * other.w + self.x * other.z - self.z * other.x;'))
bug('pm-positive-signbit', 'C22', (MA, '        let sign = fx4_sign(self.w);\n        SoaQuat {\n            x: fx4_xor(self.x, sign),', '        let sign = fx4_sign(-self.w);\n        SoaQuat {\n            x: fx4_xor(self.x, sign),'))
bug('pm-nlerp-flip', 'C22', (MA, '        let lerp_x = (other.x - self.x) * f + self.x;', '        let other = &other.xor_num(fx4_sign(self.dot(other)));\n        let lerp_x = (other.x - self.x) * f + self.x;'))
bug('pm-dot', 'C22', (MA, 'self.x * other.x + self.y * other.y + self.z * other.z + self.w * other.w\n    }\n\n    #[inline]\n    pub fn nlerp', 'self.x * other.x + self.y * other.y + self.z * other.z - self.w * other.w\n    }\n\n    #[inline]\n    pub fn nlerp'))
bug('pm-conj', 'C22', (MA, '            z: -self.z,\n            w: self.w,', '            z: -self.z,\n            w: -self.w,'))
bug('pm-const-neg', 'C22', (MA, 'pub const NEG_Y: SoaVec3 = SoaVec3::splat_vec3(Vec3::NEG_Y);', 'pub const NEG_Y: SoaVec3 = SoaVec3::splat_vec3(Vec3::Y);'))
bug('pm-identity', 'C22', (MA, 'SoaTransform::new(SoaVec3::ZERO, SoaQuat::IDENTITY, SoaVec3::ONE)', 'SoaTransform::new(SoaVec3::ZERO, SoaQuat::IDENTITY, SoaVec3::ZERO)'))
bug('pm-or-and', 'C22', (MA, '            z: fx4_or(self.z, i),', '            z: fx4_and(self.z, i),'))
bug('pm-lerp', 'C22', (MA, 'pub fn lerp(from: &SoaVec3, to: &SoaVec3, alpha: f32x4) -> SoaVec3 {\n', 'pub fn lerp(from: &SoaVec3, to: &SoaVec3, alpha: f32x4) -> SoaVec3 {\n        let alpha = alpha.simd_clamp(ZERO, ONE);\n'))
bug('pm-splat-s', 'C22', (MA, 'SoaVec3::splat_vec3(Vec3::new(s[0], s[1], s[2]))', 'SoaVec3::splat_vec3(Vec3::new(s[0], s[1], s[1]))'))

# C14 / C23: inverse kinematics
AIM, TWO = 'ik_aim_job.rs', 'ik_two_bone_job.rs'
ref('ik-iflet', 'C14', (AIM, '''        self.reached = offsetted_forward.is_some();
        if !self.reached || (joint_to_target_js_len2.simd_eq(ZERO).to_bitmask() & 0x1 == 0x1) {
            self.joint_correction = QUAT_UNIT;
            return Ok(());
        }

        let offsetted_forward = offsetted_forward.unwrap();
''', '''        let offsetted_forward = match offsetted_forward {
            Some(v) => v,
            None => {
                self.clear_outs();
                return Ok(());
            }
        };
        self.reached = true;
        if joint_to_target_js_len2[0] == 0.0 {
            self.clear_joint_correction();
            return Ok(());
        }
'''))
ref('ik-twist', 'C14', (AIM, '''        let twisted = if self.twist_angle != 0.0 {
            let twist_ss = quat_from_axis_angle(rotate_plane_axis_js, f32x4::splat(self.twist_angle));
            quat_mul(quat_mul(twist_ss, rotate_plane_js), joint_to_target_rot_js)
        } else {
            quat_mul(rotate_plane_js, joint_to_target_rot_js)
        };
''', '''        let mut twisted = quat_mul(rotate_plane_js, joint_to_target_rot_js);
        if self.twist_angle != 0.0 {
            let twist_ss = quat_from_axis_angle(rotate_plane_axis_js, f32x4::splat(self.twist_angle));
            twisted = quat_mul(twist_ss, twisted);
        }
'''))
ref('ik-weight', 'C14', (AIM, '''        if self.weight < 1.0 {
            let simd_weight = f32x4::splat(self.weight).simd_max(ZERO);
            self.joint_correction = quat_normalize(fx4_lerp(QUAT_UNIT, twisted_fu, simd_weight));
        } else {
            self.joint_correction = twisted_fu;
        }
''', '''        self.joint_correction = if self.weight >= 1.0 {
            twisted_fu
        } else {
            let w = self.weight.max(0.0);
            quat_normalize(QUAT_UNIT * f32x4::splat(1.0 - w) + twisted_fu * f32x4::splat(w))
        };
'''))
ref('ik-cross', 'C14,C23', (MA, '''    let shufa = simd_swizzle!(a, [1, 2, 0, 3]);
    let shufb = simd_swizzle!(b, [1, 2, 0, 3]);
    let shufc = a * shufb - b * shufa;
    simd_swizzle!(shufc, [1, 2, 0, 3])''', '''    f32x4::from_array([
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
        0.0,
    ])'''))
ref('ik-posw', 'C14,C23', (MA, '''    let s = fx4_splat_w(q).simd_lt(ZERO).to_int() & SIGN;
    fx4_xor(q, s)''', '''    if q[3] < 0.0 {
        -q
    } else {
        q
    }'''))
ref('ik-clamp', 'C14', (AIM, 'rotate_plane_cos_angle.simd_clamp(NEG_ONE, ONE)', 'rotate_plane_cos_angle.simd_min(ONE).simd_max(NEG_ONE)'))
ref('ik-fwd-helper', 'C14', (AIM, '''        let ai_l = (r2 - ac_l2).sqrt();
        let offsetted_forward = offset + forward * fx4_splat_x(ai_l - ao_l);
        Some(offsetted_forward)''', '''        let ai_l = (r2[0] - ac_l2[0]).sqrt();
        let k = ai_l - ao_l[0];
        Some(forward * f32x4::splat(k) + offset)'''))
ref('ik-noop', 'C14', (AIM, '        let inv_joint = self.joint.invert();\n', '        let _ = self.weight;\n        let inv_joint = self.joint.invert();\n'))
ref('ik-between', 'C14,C23', (MA, '    let norm_from_norm_to = (vec3_length2_s(from) * vec3_length2_s(to)).sqrt();', '    let norm_from_norm_to = vec3_length2_s(from).sqrt() * vec3_length2_s(to).sqrt();'))
bug('ik-reached-kept', 'C14', (AIM, '''        self.reached = offsetted_forward.is_some();
        if !self.reached ||''', '''        if offsetted_forward.is_none() {
            self.joint_correction = QUAT_UNIT;
            return Ok(());
        }
        self.reached = true;
        if !self.reached ||'''))
bug('ik-zero-reached', 'C14', (AIM, '''            self.joint_correction = QUAT_UNIT;
            return Ok(());
        }

        let offsetted''', '''            self.joint_correction = QUAT_UNIT;
            self.reached = false;
            return Ok(());
        }

        let offsetted'''))
bug('ik-flip-up', 'C14', (AIM, 'vec3_dot_s(ref_joint_normal_js, corrected_up_js)', 'vec3_dot_s(ref_joint_normal_js, self.up)'))
bug('ik-weight-noclamp', 'C14', (AIM, 'f32x4::splat(self.weight).simd_max(ZERO)', 'f32x4::splat(self.weight)'))
bug('ik-weight-posw', 'C14', (AIM, 'quat_normalize(fx4_lerp(QUAT_UNIT, twisted_fu, simd_weight))', 'quat_normalize(fx4_lerp(QUAT_UNIT, twisted, simd_weight))'))
bug('ik-twist-axis', 'C14', (AIM, 'quat_from_axis_angle(rotate_plane_axis_js, f32x4', 'quat_from_axis_angle(joint_to_target_js, f32x4'))
bug('ik-twist-positive', 'C14', (AIM, 'if self.twist_angle != 0.0', 'if self.twist_angle > 0.0'))
bug('ik-degenerate', 'C14', (AIM, 'denoms.simd_ne(ZERO).to_bitmask() & 0x7 == 0x7', 'denoms.simd_ne(ZERO).to_bitmask() & 0x3 == 0x3'))
bug('ik-offset-gt', 'C14', (AIM, 'let ac_l2 = vec3_length2_s(offset) - ao_l * ao_l;', 'let ac_l2 = vec3_length2_s(offset) - ao_l;'))
bug('ik-opposite', 'C14,C23', (MA, 'if from[0].abs() > from[2].abs() {', 'if from[0] > from[2] {'))
bug('ik-opposite-axis', 'C14,C23', (MA, 'f32x4::from_array([0.0, -from[2], from[1], 0.0])', 'f32x4::from_array([0.0, -from[1], from[2], 0.0])'))
ref('tb-early', 'C23', (TWO, '''            self.start_joint_correction = QUAT_UNIT;
            self.mid_joint_correction = QUAT_UNIT;
            self.reached = false;
            return Ok(());''', '''            self.clear_outs();
            return Ok(());'''))
ref('tb-output', 'C23', (TWO, '''            let rsqrts = f32x4::from_array([
                (start_lerp * start_lerp).reduce_sum(),
                (mid_lerp * mid_lerp).reduce_sum(),
                0.0,
                0.0,
            ])
            .sqrt()
            .recip();

            self.start_joint_correction = start_lerp * fx4_splat_x(rsqrts);
            self.mid_joint_correction = mid_lerp * fx4_splat_y(rsqrts);''', '''            self.mid_joint_correction = quat_normalize(mid_lerp);
            self.start_joint_correction = quat_normalize(start_lerp);'''))
ref('tb-soften-scalar', 'C23', (TWO, 'bones_chain_len * fx4_clamp_or_min(f32x4::from_array([self.soften, 0.0, 0.0, 0.0]), ZERO, ONE)', 'bones_chain_len * f32x4::from_array([f32_clamp_or_min(self.soften, 0.0, 1.0), 0.0, 0.0, 0.0])'))
ref('tb-flip', 'C23', (TWO, '''        let bent_side_flip = fx4_sign(vec3_dot_s(bent_side_ref, setup.mid_end_ms)); // [x]
        let mid_initial_angle = fx4_xor(fx4_splat_y(mid_corrected_angle), bent_side_flip); // [x]
''', '''        let side = vec3_dot_s(bent_side_ref, setup.mid_end_ms)[0];
        let initial = fx4_splat_y(mid_corrected_angle);
        let mid_initial_angle = if side < 0.0 { -initial } else { initial };
'''))
ref('tb-noop', 'C23', (TWO, '        let setup = IKConstantSetup::new(self);\n', '        let _ = self.soften;\n        let setup = IKConstantSetup::new(self);\n'))
bug('tb-keep', 'C23', (TWO, '            self.mid_joint_correction = QUAT_UNIT;\n            self.reached = false;', '            self.reached = false;'))
bug('tb-reached-weight', 'C23', (TWO, 'self.reached = lreached && self.weight >= 1.0;', 'self.reached = lreached;'))
bug('tb-reached-mask', 'C23', (TWO, '(comp_mask & 0x5) == 0x4', '(comp_mask & 0x4) == 0x4'))
bug('tb-soften-clamp', 'C23', (TWO, 'fx4_clamp_or_min(f32x4::from_array([self.soften, 0.0, 0.0, 0.0]), ZERO, ONE)', 'f32x4::from_array([self.soften.max(0.0), 0.0, 0.0, 0.0])'))
bug('tb-soften-w', 'C23', (TWO, '(comp_mask & 0xb) == 0xb', '(comp_mask & 0x9) == 0x1'))
bug('tb-mid-space', 'C23', (TWO, '.transform_vector(self.mid_joint.transform_vector(self.mid_axis));', '.transform_vector(self.mid_axis);'))
bug('tb-flip-ref', 'C23', (TWO, 'fx4_sign(fx4_splat_x(vec3_dot_s(joint_plane_normal_ss, pole_ss)))', 'fx4_sign(fx4_splat_x(vec3_dot_s(mid_axis_ss, pole_ss)))'))
bug('tb-len2', 'C23', (TWO, '            start_target_ss_len2 = start_target_ss_len * start_target_ss_len; // [x]', '            start_target_ss_len2 = start_target_original_ss_len2; // [x]'))
bug('tb-weight-swap', 'C23', (TWO, 'self.mid_joint_correction = mid_lerp * fx4_splat_y(rsqrts);', 'self.mid_joint_correction = mid_lerp * fx4_splat_x(rsqrts);'))
bug('tb-end-scale', 'C23', (TWO, '            mid_end_ms: end_ms,', '            mid_end_ms: end_ms - start_ms,'))

# C13: accessors
TTJ, LTMJ, TRJ = 'track_triggering_job.rs', 'local_to_model_job.rs', 'track_sampling_job.rs'
CL = 'self.ratio = f32_clamp_or_max(ratio, 0.0f32, 1.0f32);'
ref('ac-ratio-clamp', 'C13', (SJ, CL, 'self.ratio = if ratio.is_nan() { 1.0 } else { ratio.clamp(0.0, 1.0) };'))
ref('ac-ratio-ifs', 'C13', (SJ, CL, '''if ratio < 0.0 {
            self.ratio = 0.0;
        } else if ratio <= 1.0 {
            self.ratio = ratio;
        } else {
            self.ratio = 1.0;
        }'''))
ref('ac-match', 'C13', (SJ, 'self.animation.as_ref()', 'match &self.animation {\n            Some(animation) => Some(animation),\n            None => None,\n        }'))
ref('ac-take', 'C13', (SJ, '    pub fn take_context(&mut self) -> Option<C> {\n        self.context.take()', '    pub fn take_context(&mut self) -> Option<C> {\n        std::mem::replace(&mut self.context, None)'),
    (B, '        self.context.take()\n', '        std::mem::take(&mut self.context)\n'))
ref('ac-clear', 'C13', (TWO, '''        self.clear_start_joint_correction();
        self.clear_mid_joint_correction();
        self.clear_reached();''', '''        self.reached = false;
        self.start_joint_correction = QUAT_UNIT;
        self.mid_joint_correction = QUAT_UNIT;'''))
ref('ac-insert', 'C13', (K, 'self.in_tangents = Some(in_tangents);', 'let _ = self.in_tangents.insert(in_tangents);'), (K, '        self.joint_it_matrices = None;', '        self.joint_it_matrices.take();'))
ref('ac-vec', 'C13', (AIM, 'self.up = fx4_from_vec3a(up);', 'self.up = f32x4::from_array([up.x, up.y, up.z, 0.0]);'),
    (AIM, 'fx4_to_vec3a(self.up)', 'Vec3A::new(self.up[0], self.up[1], self.up[2])'))
ref('ac-rename', 'C13,C18', (TRJ, '    ratio: f32,', '    at: f32,'), (TRJ, '            ratio: 0.0,', '            at: 0.0,'), (TRJ, '        self.ratio\n', '        self.at\n'),
    (TRJ, 'self.ratio = ratio;', 'self.at = ratio;'), *[(TRJ, 'self.ratio', 'self.at')] * 4)
ref('ac-noop', 'C13', (AIM, '        self.weight = weight;', '        let weight = weight;\n        let _ = self.twist_angle;\n        self.weight = weight;'))
bug('ac-ratio-nan', 'C13', (SJ, CL, 'self.ratio = ratio.clamp(0.0, 1.0);'))
bug('ac-ratio-min', 'C13', (SJ, CL, 'self.ratio = ratio.max(0.0).min(1.0);'))
bug('ac-ratio-one', 'C13', (SJ, CL, 'self.ratio = ratio.max(0.0);'))
bug('ac-ratio-wrap', 'C13', (SJ, CL, 'self.ratio = if ratio >= 1.0 { 0.0 } else { f32_clamp_or_max(ratio, 0.0f32, 1.0f32) };'))
bug('ac-frame', 'C13', (TTJ, '        self.to = to;', '        self.to = to;\n        self.from = self.from.min(to);'))
bug('ac-clear-other', 'C13', (K, '        self.joint_it_matrices = None;', '        self.joint_matrices = None;'))
bug('ac-set-other', 'C13', (K, 'self.in_tangents = Some(in_tangents);', 'self.in_normals = Some(in_tangents);'))
bug('ac-lane', 'C13', (AIM, 'self.up = fx4_from_vec3a(up);', 'self.up = f32x4::from_array([up.x, up.y, up.y, 0.0]);'))
bug('ac-clear-kept', 'C13', (TWO, '''        self.clear_mid_joint_correction();
        self.clear_reached();''', '''        self.clear_mid_joint_correction();'''))
bug('ac-default', 'C13', (LTMJ, '            to: SKELETON_MAX_JOINTS,', '            to: SKELETON_MAX_JOINTS - 1,'))
bug('ac-default-soften', 'C13', (TWO, '            soften: 1.0,', '            soften: 0.0,'))
bug('ac-take-kept', 'C13', (B, '        self.context.take()\n', '        self.context.clone()\n'))
bug('ac-get-other', 'C13', (TWO, 'fx4_to_quat(self.mid_joint_correction)', 'fx4_to_quat(self.start_joint_correction)'))
bug('ac-set-guard', 'C13', (TTJ, '        self.to = to;', '        if to >= self.from {\n            self.to = to;\n        }'))
bug('ac-layer', 'C13', (B, '''            transform,
            weight: 0.0,
            joint_weights,''', '''            transform,
            weight: 1.0,
            joint_weights,'''))
import re as _re
def _renamed(f, olds, tree='/repo/src'):
    s = open('%s/%s' % (tree, f)).read()
    cut = s.index('#[cfg(test)]')
    out = s[:cut]
    for o in olds:
        out = _re.sub(r'\b(self|job|Self|ctx)\.%s\b(?!\()' % o, r'\1.%s_' % o, out)
        out = _re.sub(r'(\n    |\n            )(pub )?%s:' % o, r'\1%s_:' % o, out)
    return f, s[:cut], out
ref('ren-aim', 'C05,C13,C14', _renamed(AIM, ['target', 'forward', 'up', 'weight', 'joint', 'reached', 'joint_correction']))
ref('ren-two', 'C13,C23', _renamed(TWO, ['target', 'mid_axis', 'weight', 'soften', 'start_joint', 'reached', 'mid_joint_correction']))
ref('ren-mb', 'C05,C13,C19', _renamed(MB, ['layers', 'output']))
ref('ren-ltm', 'C05,C13,C17', _renamed(LTMJ, ['input', 'root', 'from', 'to', 'output']))
ref('ren-tt', 'C05,C13', _renamed(TTJ, ['from', 'threshold']))
ref('ren-bl', 'C05,C13,C16', _renamed(B, ['skeleton', 'context', 'threshold', 'additive_layers', 'output', 'num_passes']))
ref('ren-sk', 'C05,C13,C15', _renamed(K, ['vertex_count', 'influences_count', 'joint_weights', 'in_normals', 'out_tangents']))
ref('ren-sj', 'C05,C13,C07,C08', _renamed(SJ, ['animation', 'output', 'context']))
# ---- C09
_A, _S, _SJ, _M, _T = 'animation.rs', 'skeleton.rs', 'sampling_job.rs', 'math.rs', 'track_triggering_job.rs'
ref('pe-order', 'C09', (_A, '''        animation.translations_mut().copy_from_slice(&raw.translations);
        animation.t_ratios_mut().copy_from_slice(&raw.t_ratios);''', '''        animation.t_ratios_mut().copy_from_slice(&raw.t_ratios[..]);
        animation.translations_mut().copy_from_slice(raw.translations.as_slice());'''))
ref('pe-loop', 'C09', (_A, '        animation.r_ratios_mut().copy_from_slice(&raw.r_ratios);', '''        for (dst, src) in animation.r_ratios_mut().iter_mut().zip(raw.r_ratios.iter()) {
            *dst = *src;
        }'''))
ref('pe-loop2', 'C09', (_A, '        animation.r_ratios_mut().copy_from_slice(&raw.r_ratios);', '''        for i in 0..raw.r_ratios.len() {
            animation.r_ratios_mut()[i] = raw.r_ratios[i];
        }'''))
ref('pe-zip', 'C09', (_A, '''            for (idx, t) in archived.translations.iter().enumerate() {
                animation.translations_mut()[idx] = Float3Key(t.0);
            }''', '''            for (dst, t) in animation.translations_mut().iter_mut().zip(archived.translations.iter()) {
                *dst = Float3Key([t.0[0], t.0[1], t.0[2]]);
            }'''))
ref('pe-vec', 'C09', (_A, '            translations: self.translations().to_vec(),', '            translations: Vec::from(self.translations()),'))
ref('pe-helper', 'C09', (_SJ, '''        ctx.translations_mut().copy_from_slice(self.translations());
        ctx.translation_entries_mut()
            .copy_from_slice(self.translation_entries());''', '''        fn put<T: Copy>(dst: &mut [T], src: &[T]) {
            dst.copy_from_slice(src);
        }
        put(ctx.translation_entries_mut(), self.translation_entries());
        put(ctx.translations_mut(), self.translations());'''))
ref('pe-eq', 'C09', (_SJ, '''        self.max_tracks() == other.max_tracks()
            && self.max_soa_tracks() == other.max_soa_tracks()
            && self.max_outdated() == other.max_outdated()
            && self.animation_id() == other.animation_id()
            &&''', '''        if self.max_tracks() != other.max_tracks() {
            return false;
        }
        if other.animation_id() != self.animation_id() {
            return false;
        }
        true &&'''))
ref('pe-next', 'C09', (_SJ, '            ctx.set_rotation_next(data.rotation_next);\n', ''), (_SJ, '            copy(ctx.rotations_mut(), &data.rotations)?;', '            ctx.set_rotation_next(data.rotation_next);\n            copy(ctx.rotations_mut(), &data.rotations)?;'))
ref('pe-names', 'C09', (_S, '''            for entry in archived.joint_names.iter() {
                skeleton.joint_names.insert(entry.key.to_string(), entry.value);
            }''', '''            for i in 0..archived.joint_names.len() {
                let entry = &archived.joint_names[i];
                let name = entry.key.as_str().to_string();
                skeleton.joint_names.insert(name, entry.value);
            }'''))
ref('pe-soa', 'C09', (_M, '            let tmp: [[f32; 4]; 4] = Deserialize::deserialize(deserializer)?;\n            Ok(SoaQuat::new(tmp[0], tmp[1], tmp[2], tmp[3]))', '            let [x, y, z, w]: [[f32; 4]; 4] = Deserialize::deserialize(deserializer)?;\n            Ok(SoaQuat {\n                x: f32x4::from_array(x),\n                y: f32x4::from_array(y),\n                z: f32x4::from_array(z),\n                w: f32x4::from_array(w),\n            })'))
ref('pe-size', 'C09', (_SJ, '            map.serialize_entry("size", &self.size())?;\n', ''))
bug('pe-clone-next', 'C09', (_SJ, 'ctx.set_rotation_next(self.rotation_next());', 'ctx.set_rotation_next(self.translation_next());'))
bug('pe-clone-outdated', 'C09', (_SJ, '        ctx.scale_outdated_mut().copy_from_slice(self.scale_outdated());\n', ''))
bug('pe-eq-less', 'C09', (_SJ, '            && self.scale_outdated() == other.scale_outdated()\n', ''))
bug('pe-eq-self', 'C09', (_SJ, 'self.rotation_entries() == other.rotation_entries()', 'self.rotation_entries() == self.rotation_entries()'))
bug('pe-id', 'C09', (_SJ, '            context.set_animation_id(archived.animation_id);', '            context.set_animation_id(archived.animation_id & 0xffff_ffff_ffff);'))
bug('pe-ratio', 'C09', (_SJ, '            ctx.set_ratio(data.ratio);', '            ctx.set_ratio(data.ratio.clamp(0.0, 1.0));'))
bug('pe-swap', 'C09', (_SJ, 'context.scales_mut().copy_from_slice(&archived.scales);', 'context.scales_mut().copy_from_slice(&archived.translations);'))
bug('pe-raw', 'C09', (_A, '        animation.s_iframe_interval = raw.s_iframe_interval;', '        animation.s_iframe_interval = raw.t_iframe_interval;'))
bug('pe-key', 'C09', (_A, 'animation.scales_mut()[idx] = Float3Key(s.0);', 'animation.scales_mut()[idx] = Float3Key([s.0[0], s.0[1], s.0[1]]);'))
bug('pe-key-first', 'C09', (_A, 'for (idx, s) in archived.scales.iter().enumerate() {', 'for (idx, s) in archived.scales.iter().enumerate().take(65535) {'))
bug('pe-refuse', 'C09', (_S, '''            let raw = SkeletonRaw::deserialize(deserializer)?;
''', '''            let raw = SkeletonRaw::deserialize(deserializer)?;
            if raw.joint_parents.is_empty() {
                return Err(serde::de::Error::custom("no joints"));
            }
'''))
bug('pe-names-skip', 'C09', (_S, '''            for entry in archived.joint_names.iter() {
                skeleton''', '''            for entry in archived.joint_names.iter() {
                if entry.key.is_empty() {
                    continue;
                }
                skeleton'''))
bug('pe-lane', 'C09', (_M, 'Ok(SoaQuat::new(tmp[0], tmp[1], tmp[2], tmp[3]))', 'Ok(SoaQuat::new(tmp[0], tmp[1], tmp[3], tmp[2]))'))
bug('pe-seq', 'C09', (_M, 'serializer.serialize_tuple(4)', 'serializer.serialize_tuple(3)'))
bug('pe-skip', 'C09', (_T, '    ratio: f32,', '    #[cfg_attr(feature = "serde", serde(skip))]\n    ratio: f32,'))
bug('pe-skip-if', 'C09', ('track.rs', '    name: String,', '    #[cfg_attr(feature = "serde", serde(default, skip_serializing_if = "String::is_empty"))]\n    name: String,'))

# ---- C01 determinism
ref('dt-assert', 'C01', ('base.rs', '    (size + align - 1) & !(align - 1)', '    debug_assert!(size < usize::MAX / 2, "too large: {}", size);\n    debug_assert_eq!(align & (align - 1), 0);\n    (size + align - 1) & !(align - 1)'))
ref('dt-max', 'C01', ('track.rs', '        a + (b - a) * t', '        let d = (b - a).max(f32::NEG_INFINITY);\n        a + d * t'))
ref('dt-hash-local', 'C01', (_S, '    pub fn joint_by_name(&self, name: &str) -> Option<i16> {', '    pub fn joint_by_name(&self, name: &str) -> Option<i16> {\n        if !self.joint_names.contains_left(name) {\n            return None;\n        }'))
ref('dt-id-helper', 'C01', (_SJ, '        let animation_id = animation as *const _ as u64;', '        fn id(a: &Animation) -> u64 {\n            a as *const Animation as usize as u64\n        }\n        let animation_id = id(animation);'))
ref('dt-cfg-same', 'C01', ('track.rs', '    fn lerp(a: f32, b: f32, t: f32) -> f32 {', '    #[cfg_attr(target_arch = "wasm32", inline(always))]\n    fn lerp(a: f32, b: f32, t: f32) -> f32 {'))
bug('dt-fma', 'C01', ('track.rs', '        a + (b - a) * t', '        (b - a).mul_add(t, a)'))
bug('dt-simd-fma', 'C01', (_M, '    pub fn lerp(from: &SoaVec3, to: &SoaVec3, alpha: f32x4) -> SoaVec3 {', '    pub fn lerp(from: &SoaVec3, to: &SoaVec3, alpha: f32x4) -> SoaVec3 {\n        if alpha[0] > 0.5 {\n            let x = (to.x - from.x).mul_add(alpha, from.x);\n            return SoaVec3 { x, y: (to.y - from.y) * alpha + from.y, z: (to.z - from.z) * alpha + from.z };\n        }'))
bug('dt-powi', 'C01', ('track_triggering_job.rs', 'outer: job.from.floor(),', 'outer: job.from.floor().powi(1),'))
bug('dt-cfg-arch', 'C01', ('track.rs', '        a + (b - a) * t', '        if cfg!(target_arch = "wasm32") {\n            return a * (1.0 - t) + b * t;\n        }\n        a + (b - a) * t'))
bug('dt-cfg-feature', 'C01', ('track.rs', '        a + (b - a) * t', '        #[cfg(feature = "rkyv")]\n        return a * (1.0 - t) + b * t;\n        #[cfg(not(feature = "rkyv"))]\n        return a + (b - a) * t;'))
bug('dt-debug', 'C01', ('track.rs', '        a + (b - a) * t', '        if cfg!(debug_assertions) {\n            return a * (1.0 - t) + b * t;\n        }\n        a + (b - a) * t'))
bug('dt-width', 'C01', (_SJ, 'iframe = (0.5 + ratio / ctrl.iframe_interval) as i32;', 'iframe = (0.5 + ratio / ctrl.iframe_interval) as usize as i32;'))
bug('dt-seed', 'C01', ('base.rs', '        DefaultHasher::default()', '        std::collections::hash_map::RandomState::new().build_hasher()'))
bug('dt-walk', 'C01', (_S, '    pub fn joint_by_name(&self, name: &str) -> Option<i16> {', '    pub fn joint_by_name(&self, name: &str) -> Option<i16> {\n        if let Some((_, i)) = self.joint_names.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)) {\n            return Some(*i);\n        }'))
bug('dt-static', 'C01', ('motion_blending_job.rs', '        self.output = ', '        static RUNS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        self.output = '))
bug('dt-addr', 'C01', (_SJ, '        if ctx.animation_id() != animation_id {', '        if ctx.animation_id() > animation_id {'))
bug('dt-time', 'C01', (_SJ, '        if ctx.animation_id() != animation_id {', '        if std::time::UNIX_EPOCH.elapsed().is_err() {\n            ctx.set_translation_next(0);\n        }\n        if ctx.animation_id() != animation_id {'))
bug('dt-ne', 'C01', (_SJ, 'u32::from_le_bytes', 'u32::from_ne_bytes'))
ref('dt-iters', 'C01', ('track.rs', '        a + (b - a) * t', '        std::iter::once((b - a) * t).fold(a, |s, x| s + x)'))
bug('dt-once', 'C01', ('track.rs', '        a + (b - a) * t', '        static FIRST: std::sync::OnceLock<f32> = std::sync::OnceLock::new();\n        FIRST.get_or_init(|| a) * 0.0 + a + (b - a) * t'))

# ---- C06 frame
_TB, _L2M, _BL = 'ik_two_bone_job.rs', 'local_to_model_job.rs', 'blending_job.rs'
bug('fr-soften', 'C06', (_TB, '        let setup = IKConstantSetup::new(self);', '        self.soften = self.soften.clamp(0.0, 1.0);\n        let setup = IKConstantSetup::new(self);'))
bug('fr-to', 'C06', (_L2M, '        let mut idx = begin;', '        self.to = i32::min(self.to, skeleton.num_joints() as i32 - 1);\n        let mut idx = begin;'))
bug('fr-layer', 'C06', (_BL, '        Self::blend_layers(skeleton, ctx, &self.layers, &mut output)?;', '        for layer in &mut self.layers {\n            layer.weight = layer.weight.max(0.0);\n        }\n        Self::blend_layers(skeleton, ctx, &self.layers, &mut output)?;'))
bug('fr-sort', 'C06', (_BL, '        Self::blend_layers(skeleton, ctx, &self.layers, &mut output)?;', '        self.layers.sort_by(|a, b| b.weight.total_cmp(&a.weight));\n        Self::blend_layers(skeleton, ctx, &self.layers, &mut output)?;'))
bug('fr-retain', 'C06', ('motion_blending_job.rs', '        for layer in &self.layers {', '        self.layers.retain(|l| l.weight > 0.0);\n        for layer in &self.layers {'))
bug('fr-take', 'C06', (_SJ, '        if anim.num_soa_tracks() == 0 {\n            return Ok(());', '        if anim.num_soa_tracks() == 0 {\n            self.context = None;\n            return Ok(());'))
bug('fr-ratio', 'C06', ('track_sampling_job.rs', '        if track.ratios().len() == 0 {', '        self.ratio = self.ratio.clamp(0.0, 1.0);\n        if track.ratios().len() == 0 {'))
bug('fr-shared', 'C06', (_SJ, '        if anim.num_soa_tracks() == 0 {\n            return Ok(());', '        if anim.num_soa_tracks() == 0 {\n            unsafe { (*(anim as *const Animation as *mut Animation)).name.clear() };\n            return Ok(());'), (_A, '    name: String', '    pub(crate) name: String'))
bug('fr-write', 'C06', (_S, '    pub fn joint_by_name(&self, name: &str) -> Option<i16> {', '    pub fn joint_by_name(&self, name: &str) -> Option<i16> {\n        unsafe { std::ptr::write(self.joint_parents, -1) };'))
bug('fr-cell', 'C06', ('track.rs', '    name: String,', '    name: String,\n    pub(crate) hits: std::cell::Cell<u32>,'))
bug('fr-validate', 'C06', (_L2M, '    pub fn validate(&self) -> bool {', '    pub fn validate(&self) -> bool {\n        unsafe { (*(self as *const Self as *mut Self)).from = self.from.max(-1) };'))
bug('fr-out-slot', 'C06', (_TB, '            self.mid_joint_correction = QUAT_UNIT;\n            self.reached = false;\n            return Ok(());', '            self.mid_joint_correction = QUAT_UNIT;\n            self.reached = false;\n            self.pole_vector = self.pole_vector * f32x4::splat(1.0);\n            return Ok(());'))
ref('fr-copy', 'C06', (_TB, '        let setup = IKConstantSetup::new(self);', '        let mut tmp = self.soften;\n        tmp = tmp.clamp(0.0, 1.0);\n        let _ = tmp;\n        let setup = IKConstantSetup::new(self);'))
ref('fr-sorted-copy', 'C06', ('motion_blending_job.rs', '        for layer in &self.layers {', '        let mut order: Vec<_> = self.layers.iter().collect();\n        order.retain(|l| l.weight > 0.0);\n        for layer in order {'))
ref('fr-out-ref', 'C06', ('track_sampling_job.rs', '            self.result = V::default();', '            let out = &mut self.result;\n            *out = V::default();'))
ref('fr-swap', 'C06', (_TB, '            self.reached = false;\n            return Ok(());', '            std::mem::take(&mut self.reached);\n            return Ok(());'))
ref('fr-out-helper', 'C06', (_L2M, '        let mut idx = begin;', '        fn rest(o: &mut [Mat4]) -> &mut [Mat4] {\n            o\n        }\n        let output = rest(&mut output);\n        let mut idx = begin;'))
ref('fr-ctx-reset', 'C06', (_BL, '        ctx.num_partial_passes = 0;\n        ctx.num_passes = 0;', '        let BlendingContext { num_partial_passes, num_passes, .. } = ctx;\n        *num_partial_passes = 0;\n        *num_passes = 0;'))

# ---------------------------------------------------------------- views and threads (C11)
bug('vw-free', 'C11', (_S, 'pub fn joint_parents(&self) -> &[i16] {', "pub fn joint_parents<'a>(&self) -> &'a [i16] {"))
bug('vw-static', 'C11', (_S, 'pub fn joint_parents(&self) -> &[i16] {', "pub fn joint_parents(&self) -> &'static [i16] {"))
bug('vw-ctx', 'C11', (_SJ, 'pub fn rotations(&self) -> &[InterpSoaQuaternion] {', "pub fn rotations<'a>(&self) -> &'a [InterpSoaQuaternion] {"))
bug('vw-private-mut', 'C11', (_S, '    fn joint_parents_mut(&mut self) -> &mut [i16] {', "    pub fn joint_parents_mut<'a>(&self) -> &'a mut [i16] {"))
bug('vw-name', 'C11', (_A, '''    pub fn name(&self) -> &str {
        &self.name''', '''    pub fn name<'a>(&self) -> &'a str {
        unsafe { std::mem::transmute(self.name.as_str()) }'''))
bug('vw-iter', 'C11', ('track_triggering_job.rs', "    pub fn run(&mut self) -> Result<TrackTriggeringIter<'_, T>, OzzError> {", "    pub fn run<'a>(&mut self) -> Result<TrackTriggeringIter<'a, T>, OzzError>\n    where\n        T: 'a,\n    {"), ('track_triggering_job.rs', 'Ok(TrackTriggeringIter::new(self))', 'Ok(TrackTriggeringIter::new(unsafe { &*(self as *const Self) }))'))
bug('vw-send-job', 'C11', (_SJ, 'impl<A, O, C> SamplingJob<A, O, C>', 'unsafe impl<A, O, C> Send for SamplingJob<A, O, C>\nwhere\n    A: OzzObj<Animation>,\n    O: OzzMutBuf<SoaTransform>,\n    C: AsSamplingContext,\n{\n}\n\nimpl<A, O, C> SamplingJob<A, O, C>'))
bug('vw-not-send', 'C11', (_BL, '    accumulated_weights: Vec<f32x4>,', '    accumulated_weights: Vec<f32x4>,\n    #[allow(dead_code)]\n    shared: std::marker::PhantomData<std::rc::Rc<()>>,'), (_BL, 'accumulated_weights: Vec::new(),', 'shared: Default::default(),\n            accumulated_weights: Vec::new(),'), (_BL, 'accumulated_weights: vec![', 'shared: Default::default(),\n            accumulated_weights: vec!['))
bug('vw-rc-in-skel', 'C11', (_S, '    joint_parents: *mut i16,\n}', '    joint_parents: *mut i16,\n    #[allow(dead_code)]\n    shared: Option<std::rc::Rc<()>>,\n}'), (_S, '            joint_parents: std::ptr::null_mut(),', '            shared: None,\n            joint_parents: std::ptr::null_mut(),'))
bug('vw-out-shared', 'C11', ('lib.rs', 'pub mod math;', 'pub mod math;\npub struct Both<T>(pub T);\nunsafe impl<T> Sync for Both<T> {}'))
ref('vw-tied', 'C11', (_S, 'pub fn joint_parents(&self) -> &[i16] {', "pub fn joint_parents<'s>(&'s self) -> &'s [i16] {"))
ref('vw-helper', 'C11', (_S, '''    pub fn joint_parents(&self) -> &[i16] {
        unsafe { slice::from_raw_parts(self.joint_parents, self.num_joints()) }
    }''', '''    pub fn joint_parents(&self) -> &[i16] {
        unsafe { raw_view(self.joint_parents, self.num_joints()) }
    }'''), (_S, 'unsafe impl Send for Skeleton {}', "#[inline(always)]\nunsafe fn raw_view<'a, T>(p: *const T, n: usize) -> &'a [T] {\n    unsafe { slice::from_raw_parts(p, n) }\n}\n\nunsafe impl Send for Skeleton {}"))
ref('vw-impl-send', 'C11', (_A, 'unsafe impl Send for Animation {}\nunsafe impl Sync for Animation {}', '// SAFETY: the memory is owned\nunsafe impl std::marker::Send for Animation {}\n// SAFETY: only changed by &mut\nunsafe impl std::marker::Sync for Animation {}'))

# ---------------------------------------------------------------- holders and borrows (C12)
bug('hd-poison-write', 'C12', ('base.rs', '''        match self.write() {
            Ok(guard) => Ok(ObRwLockWriteGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),
        }''', '''        Ok(ObRwLockWriteGuard(self.write().unwrap_or_else(|e| e.into_inner())))'''))
bug('hd-poison-match', 'C12', ('base.rs', '''            Ok(guard) => Ok(ObRwLockWriteGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),''', '''            Ok(guard) => Ok(ObRwLockWriteGuard(guard)),
            Err(poison) => Ok(ObRwLockWriteGuard(poison.into_inner())),'''))
bug('hd-poison-job', 'C12', ('base.rs', '''            Ok(guard) => Ok(ObRwLockReadGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),''', '''            Ok(guard) => Ok(ObRwLockReadGuard(guard)),
            Err(_) => Err(OzzError::InvalidJob),'''))
bug('hd-try', 'C12', ('base.rs', 'match self.read() {', 'match self.try_read() {'))
bug('hd-try-write', 'C12', ('base.rs', 'match self.write() {', 'match self.try_write() {'))
bug('hd-unwrap', 'C12', ('base.rs', '''        match self.read() {
            Ok(guard) => Ok(ObRwLockReadGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),
        }''', '        Ok(ObRwLockReadGuard(self.read().unwrap()))'))
bug('hd-validate-inside', 'C12', (_L2M, '        let mut ok = input.len() >= skeleton.num_soa_joints();', '        let mut ok = self.input.as_ref().map_or(false, |i| i.buf().is_ok_and(|b| b.len() >= skeleton.num_soa_joints()));'))
bug('hd-twice', 'C12', (_BL, '            let transform = layer.transform.buf()?;\n\n            if layer.weight', '            let transform = layer.transform.buf()?;\n            if layer.transform.buf()?.is_empty() {\n                continue;\n            }\n\n            if layer.weight'))
bug('hd-collect', 'C12', (_BL, '''        for layer in layers {
            if layer.transform.buf()?.len() < skeleton.num_soa_joints() {
                return Err(OzzError::InvalidJob);
            }''', '''        let bufs = layers.iter().map(|l| l.transform.buf()).collect::<Result<Vec<_>, _>>()?;
        for (layer, buf) in layers.iter().zip(&bufs) {
            if buf.len() < skeleton.num_soa_joints() || layer.transform.buf()?.len() == 0 {
                return Err(OzzError::InvalidJob);
            }'''))
bug('hd-part', 'C12', ('base.rs', '''    fn deref_mut(&mut self) -> &mut Self::Target {
        self.0.as_mut_slice()''', '''    fn deref_mut(&mut self) -> &mut Self::Target {
        let n = self.0.len() & !3;
        &mut self.0[..n]'''))
bug('hd-error-kept', 'C12', ('skinning_job.rs', '    let buf = ozz_buf.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '    let buf = ozz_buf.as_ref().ok_or(OzzError::InvalidJob)?.buf().map_err(|_| OzzError::InvalidJob)?;'))
bug('hd-skip-layer', 'C12', (_BL, '            let transform = layer.transform.buf()?;\n\n            if layer.weight', '            let Ok(transform) = layer.transform.buf() else {\n                continue;\n            };\n\n            if layer.weight'))
bug('hd-forget', 'C12', (_SJ, '        if anim.num_soa_tracks() == 0 {\n            return Ok(());', '        if anim.num_soa_tracks() == 0 {\n            std::mem::forget(output);\n            return Ok(());'))
bug('hd-alias', 'C12', (_L2M, "LocalToModelJob<&'t Skeleton, &'t [SoaTransform], &'t mut [Mat4]>", "LocalToModelJob<&'t Skeleton, &'t Vec<SoaTransform>, &'t mut [Mat4]>"))
ref('hd-map', 'C12', ('base.rs', '''        match self.read() {
            Ok(guard) => Ok(ObRwLockReadGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),
        }''', '        self.read().map(ObRwLockReadGuard).map_err(|_| OzzError::LockPoison)'))
ref('hd-question', 'C12', ('base.rs', '''        match self.write() {
            Ok(guard) => Ok(ObRwLockWriteGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),
        }''', '''        let guard = self.write().map_err(|_| OzzError::LockPoison)?;
        Ok(ObRwLockWriteGuard(guard))'''))
ref('hd-iflet', 'C12', ('base.rs', '''        match self.write() {
            Ok(guard) => Ok(ObRwLockWriteGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),
        }''', '''        if let Ok(guard) = self.write() {
            return Ok(ObRwLockWriteGuard(guard));
        }
        Err(OzzError::LockPoison)'''))
ref('hd-range', 'C12', ('base.rs', '''    fn deref_mut(&mut self) -> &mut Self::Target {
        self.0.as_mut_slice()''', '''    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0[..]'''), ('base.rs', 'Ok(ObSliceRef(self.as_slice()))', 'Ok(ObSliceRef(&self[..]))'))
ref('hd-scoped', 'C12', (_BL, '            if layer.transform.buf()?.len() < skeleton.num_soa_joints() {', '            let len = {\n                let buf = layer.transform.buf()?;\n                buf.len()\n            };\n            if len < skeleton.num_soa_joints() {'))
ref('hd-drop-again', 'C12', (_L2M, '        let input = self.input.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '        let first = self.input.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;\n        drop(first);\n        let input = self.input.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;'))
ref('hd-match', 'C12', ('skinning_job.rs', '    let buf = ozz_buf.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '    let buf = match ozz_buf {\n        Some(b) => match b.buf() {\n            Ok(b) => b,\n            Err(e) => return Err(e),\n        },\n        None => return Err(OzzError::InvalidJob),\n    };'))

ref('hd-map-qq', 'C12,C05', ('skinning_job.rs', '    let buf = ozz_buf.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '    let buf = ozz_buf.as_ref().map(|b| b.buf()).ok_or(OzzError::InvalidJob)??;'))
ref('hd-transpose', 'C12,C05', (_L2M, '        let input = self.input.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '        let input = match self.input.as_ref().map(|b| b.buf()) {\n            Some(Ok(buf)) => buf,\n            Some(Err(e)) => return Err(e),\n            None => return Err(OzzError::InvalidJob),\n        };'))
ref('hd-and-then', 'C12,C05', (_L2M, '        let input = self.input.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '        let input = self.input.as_ref().ok_or(OzzError::InvalidJob).and_then(|b| b.buf())?;'))

# ---------------------------------------------------------------- trigger iterator (C24)
_TT = 'track_triggering_job.rs'
bug('tt-rising-back', 'C24', (_TT, 'edge.rising = !forward;', 'edge.rising = false;'))
bug('tt-strict', 'C24', (_TT, 'if val0 <= self.job.threshold && val1 > self.job.threshold {', 'if val0 < self.job.threshold && val1 > self.job.threshold {'))
bug('tt-from-open', 'C24', (_TT, 'if edge.ratio >= self.job.from && (', 'if edge.ratio > self.job.from && ('))
bug('tt-to-closed', 'C24', (_TT, '(edge.ratio < self.job.to || ', '(edge.ratio <= self.job.to || '))
bug('tt-to-whole', 'C24', (_TT, 'self.job.to >= 1.0 + self.outer)\n', 'self.job.to > 1.0 + self.outer)\n'))
bug('tt-break-outer', 'C24', (_TT, 'if track.ratios()[self.inner as usize] + self.outer >= self.job.to {', 'if track.ratios()[self.inner as usize] >= self.job.to {'))
bug('tt-break-early', 'C24', (_TT, 'if track.ratios()[self.inner as usize] + self.outer <= self.job.to {', 'if track.ratios()[self.inner as usize] + self.outer <= self.job.from {'))
bug('tt-trunc', 'C24', (_TT, 'outer: job.from.floor(),', 'outer: job.from.trunc(),'))
bug('tt-first', 'C24', (_TT, 'let it0 = if self.inner == 0 { key_count - 1 } else { self.inner - 1 };', 'let it0 = if self.inner == 0 { 0 } else { self.inner - 1 };'))
bug('tt-step-key', 'C24', (_TT, 'let step = (track.steps()[it0 / 8] & (1 << (it0 & 7))) != 0;', 'let step = (track.steps()[it1 / 8] & (1 << (it1 & 7))) != 0;'))
bug('tt-step-mask', 'C24', (_TT, '(1 << (it0 & 7))', '(1 << (it0 & 3))'))
bug('tt-step-ratio', 'C24', (_TT, 'edge.ratio = track.ratios()[it1];', 'edge.ratio = track.ratios()[it0];'))
bug('tt-alpha', 'C24', (_TT, '(self.job.threshold - val0) / (val1 - val0)', '(self.job.threshold - val0) / (val1 - val0).abs()'))
bug('tt-again', 'C24', (_TT, '                            self.inner -= 1;\n                            return Some(edge);', '                            self.inner -= 1 + (edge.ratio == self.job.to) as isize;\n                            return Some(edge);'))
bug('tt-restart', 'C24', (_TT, '                self.inner = key_count - 1;\n                self.outer -= 1.0;', '                self.inner = key_count - 2;\n                self.outer -= 1.0;'))
bug('tt-dir', 'C24', (_TT, 'inner: if job.from < job.to {', 'inner: if job.from.floor() < job.to.floor() {'))
bug('tt-end', 'C24', (_TT, 'while self.outer + 1.0 > self.job.to {', 'while self.outer >= self.job.to {'))
ref('tt-full-scan', 'C24', (_TT, '''                    // no edge found
                    if track.ratios()[self.inner as usize] + self.outer >= self.job.to {
                        break;
                    }
''', ''))
ref('tt-helpers', 'C24', (_TT, 'let it0 = if self.inner == 0 { key_count - 1 } else { self.inner - 1 };', 'let it0 = match self.inner {\n                        0 => key_count - 1,\n                        n => n - 1,\n                    };'))
ref('tt-detect', 'C24', (_TT, '''        let mut detected = false;
        let mut edge = Edge::default();
        if val0 <= self.job.threshold && val1 > self.job.threshold {
            // rising edge
            edge.rising = forward;
            detected = true;
        } else if val0 > self.job.threshold && val1 <= self.job.threshold {
            // falling edge
            edge.rising = !forward;
            detected = true;
        }

        if !detected {
            return None;
        }
''', '''        let above0 = val0 > self.job.threshold;
        let above1 = val1 > self.job.threshold;
        if above0 == above1 {
            return None;
        }
        let mut edge = Edge {
            rising: above1 == forward,
            ..Default::default()
        };
'''))
ref('tt-step-shift', 'C24', (_TT, '(track.steps()[it0 / 8] & (1 << (it0 & 7))) != 0', '(track.steps()[it0 >> 3] >> (it0 % 8)) & 1 == 1'))
ref('tt-alpha-form', 'C24', (_TT, 'edge.ratio = ratio0 + (ratio1 - ratio0) * alpha;', 'edge.ratio = ratio0 * (1.0 - alpha) + ratio1 * alpha;'))
ref('tt-range', 'C24', (_TT, '''                        if edge.ratio >= self.job.from && (edge.ratio < self.job.to || self.job.to >= 1.0 + self.outer)
                        {''', '''                        let whole = self.job.to >= 1.0 + self.outer;
                        let late = edge.ratio >= self.job.to && !whole;
                        if self.job.from <= edge.ratio && !late {'''))
ref('tt-early-none', 'C24', (_TT, '        let track = self.track?;\n\n        let key_count', '        let Some(track) = self.track else {\n            return None;\n        };\n\n        let key_count'))
ref('tt-new', 'C24', (_TT, '''            inner: if job.from < job.to {
                0
            } else {
                track.key_count() as isize - 1
            },''', '''            inner: match job.from < job.to {
                true => 0,
                false => track.key_count() as isize - 1,
            },'''), (_TT, 'track: if end { None } else { Some(track) },', 'track: (!end).then_some(track),'))
ref('tt-len', 'C24', (_TT, 'let key_count = track.key_count() as isize;', 'let key_count = track.ratios().len() as isize;'))
bug('tt-refill', 'C24', (_TT, '        // iterator end\n        self.track = None;', '        // iterator end\n        self.outer = self.job.from.floor();'))
ref('tt-no-none', 'C24', (_TT, '        // iterator end\n        self.track = None;', '        // iterator end'))
