// Included at the end of /repo/src/lib.rs under cfg(ocg_mc): C entry points to the
// image cache and the path expansion, which the C++ API does not expose.
#[allow(dead_code)]
mod ocg_mc_shim {
    use crate::cache::{CacheImpl, CachedImage};
    use crate::cxxbridge::ffi::{BBox2Di, BlockSize, DataType, ImageSpec};
    use crate::pixelblock::pixelblock::PixelBlock;
    use std::rc::Rc;

    /// Store an 8-bit 1-channel image of `width` bytes, all `tag`, with data window (tag,0)..
    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_cache_insert(c: *mut CacheImpl, key: u64, tag: u8, width: i32) {
        let mut pb = PixelBlock::new(BlockSize::new(width, 1, 1), DataType::UInt8);
        for v in pb.as_mut_slice_u8().iter_mut() {
            *v = tag;
        }
        let img = CachedImage {
            pixel_block: Rc::new(pb),
            spec: ImageSpec::new(),
            display_window: BBox2Di::new(0, 0, width, 1),
            data_window: BBox2Di::new(tag as i32, 0, tag as i32 + width, 1),
        };
        (*c).insert(key, img);
    }

    /// Look up: -1 if absent, -2 if inconsistent, else tag * 256 + size in bytes.
    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_cache_get(c: *mut CacheImpl, key: u64) -> i64 {
        match (*c).get(&key) {
            None => -1,
            Some(v) => {
                let s = v.pixel_block.as_slice_u8();
                let tag = v.data_window.min_x;
                if s.len() != v.display_window.max_x as usize || s.iter().any(|x| *x as i32 != tag) {
                    return -2;
                }
                (tag as i64) * 256 + s.len() as i64
            }
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_cache_evict(c: *mut CacheImpl) -> bool {
        (*c).evict()
    }

    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_cache_evict_bytes(c: *mut CacheImpl, n: usize) {
        (*c).evict_bytes(n)
    }

    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_cache_evict_all(c: *mut CacheImpl) {
        (*c).evict_all()
    }

    /// Expand a path for a frame; returns the length, writes at most `cap` bytes.
    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_expand(
        s: *const u8,
        len: usize,
        frame: i32,
        out: *mut u8,
        cap: usize,
    ) -> usize {
        let text = String::from_utf8_lossy(std::slice::from_raw_parts(s, len)).to_string();
        let r = crate::pathutils::expand_string(text, frame);
        let n = std::cmp::min(r.len(), cap);
        std::ptr::copy_nonoverlapping(r.as_ptr(), out, n);
        r.len()
    }

    fn dt(v: i32) -> DataType {
        match v {
            0 => DataType::Float32,
            1 => DataType::Half16,
            2 => DataType::UInt8,
            _ => DataType::UInt16,
        }
    }

    unsafe fn bytes(pb: &mut PixelBlock) -> (*mut u8, usize) {
        match pb.data_type() {
            DataType::Float32 => (pb.as_mut_slice_f32().as_mut_ptr() as *mut u8, pb.as_slice_f32().len() * 4),
            DataType::Half16 => (pb.as_mut_slice_f16().as_mut_ptr() as *mut u8, pb.as_slice_f16().len() * 2),
            DataType::UInt8 => (pb.as_mut_slice_u8().as_mut_ptr(), pb.as_slice_u8().len()),
            _ => (pb.as_mut_slice_u16().as_mut_ptr() as *mut u8, pb.as_slice_u16().len() * 2),
        }
    }

    /// Convert a w x h x n pixel block from one data type to another. Returns the number of
    /// bytes of the result, or -1 if its shape or type is not the expected one.
    #[no_mangle]
    pub unsafe extern "C" fn ocg_mc_convert(
        src: *const u8,
        w: i32,
        h: i32,
        n: i32,
        from: i32,
        to: i32,
        out: *mut u8,
        cap: usize,
    ) -> i64 {
        let mut pb = PixelBlock::new(BlockSize::new(w, h, n), dt(from));
        let (p, len) = bytes(&mut pb);
        std::ptr::copy_nonoverlapping(src, p, len);
        pb.convert_into_data_type(dt(to));
        if pb.width() != w || pb.height() != h || pb.num_channels() != n || pb.data_type() != dt(to) {
            return -1;
        }
        let (q, len) = bytes(&mut pb);
        if len != pb.size_bytes() {
            return -1;
        }
        std::ptr::copy_nonoverlapping(q, out, std::cmp::min(len, cap));
        len as i64
    }
}
