"""Self-test of the encoder, not a property: x86 intrinsics cross-validated against the CPU (./check XV --tier thorough)."""
from vsym.dsl import *

B = [  # (intrinsic, operand vector types, rust register type, result)
    ('_mm_packs_epi16', '__m128i', 'i16x8', 2), ('_mm_packus_epi16', '__m128i', 'i16x8', 2),
    ('_mm_packs_epi32', '__m128i', 'i32x4', 2), ('_mm_packus_epi32', '__m128i', 'i32x4', 2),
    ('_mm256_packs_epi16', '__m256i', 'i16x16', 2), ('_mm256_packus_epi32', '__m256i', 'i32x8', 2),
    ('_mm_min_ps', '__m128', 'f32x4', 2), ('_mm_max_ps', '__m128', 'f32x4', 2), ('_mm_min_pd', '__m128d', 'f64x2', 2),
    ('_mm256_max_pd', '__m256d', 'f64x4', 2), ('_mm256_min_ps', '__m256', 'f32x8', 2),
    ('_mm_cmplt_ps', '__m128', 'f32x4', 2), ('_mm_cmpneq_pd', '__m128d', 'f64x2', 2), ('_mm_cmpnlt_ps', '__m128', 'f32x4', 2),
    ('_mm256_cmp_ps::<14>', '__m256', 'f32x8', 2), ('_mm256_cmp_pd::<21>', '__m256d', 'f64x4', 2),
    ('_mm_blendv_epi8', '__m128i', 'u8x16', 3), ('_mm256_blendv_epi8', '__m256i', 'u8x32', 3),
    ('_mm_blendv_ps', '__m128', 'f32x4', 3), ('_mm256_blendv_pd', '__m256d', 'f64x4', 3),
    ('_mm_sad_epu8', '__m128i', 'u8x16', 2), ('_mm256_sad_epu8', '__m256i', 'u8x32', 2),
    ('_mm_madd_epi16', '__m128i', 'i16x8', 2), ('_mm_sign_epi8', '__m128i', 'i8x16', 2),
    ('_mm256_sign_epi32', '__m256i', 'i32x8', 2), ('_mm_hadd_epi16', '__m128i', 'i16x8', 2),
    ('_mm256_hadd_epi32', '__m256i', 'i32x8', 2), ('_mm_hsub_epi32', '__m128i', 'i32x4', 2),
    ('_mm_hadd_ps', '__m128', 'f32x4', 2), ('_mm256_hadd_pd', '__m256d', 'f64x4', 2),
    ('_mm_sll_epi16', '__m128i', 'u16x8', 2), ('_mm_srl_epi32', '__m128i', 'u32x4', 2), ('_mm_sra_epi32', '__m128i', 'u32x4', 2),
    ('_mm_sll_epi64', '__m128i', 'u64x2', 2), ('_mm_slli_epi16::<3>', '__m128i', 'u16x8', 1),
    ('_mm_srai_epi32::<40>', '__m128i', 'u32x4', 1), ('_mm_srli_epi64::<9>', '__m128i', 'u64x2', 1),
    ('_mm256_sllv_epi32', '__m256i', 'u32x8', 2), ('_mm256_srav_epi32', '__m256i', 'u32x8', 2),
    ('_mm_srlv_epi64', '__m128i', 'u64x2', 2), ('_mm_minpos_epu16', '__m128i', 'u16x8', 1),
    ('_mm_mulhi_epi16', '__m128i', 'i16x8', 2), ('_mm256_mulhi_epu16', '__m256i', 'i16x16', 2),
    ('_mm_floor_ps', '__m128', 'f32x4', 1), ('_mm256_ceil_pd', '__m256d', 'f64x4', 1),
    ('_mm_shuffle_epi8', '__m128i', 'u8x16', 2), ('_mm256_shuffle_epi8', '__m256i', 'u8x32', 2),
    ('_mm256_permutevar8x32_epi32', '__m256i', 'u32x8', 2), ('_mm_permutevar_ps', '__m128 __m128i', 'f32x4', 2),
    ('_mm256_permutevar_pd', '__m256d __m256i', 'f64x4', 2), ('_mm_movemask_epi8', '__m128i', 'u8x16', 1),
    ('_mm256_movemask_pd', '__m256d', 'f64x4', 1), ('_mm256_testc_si256', '__m256i', 'u8x32', 2),
    ('_mm256_testnzc_ps', '__m256', 'f32x8', 2), ('_mm_unpacklo_epi8', '__m128i', 'u8x16', 2),
    ('_mm256_permute4x64_epi64::<27>', '__m256i', 'u64x4', 1), ('_mm_alignr_epi8::<5>', '__m128i', 'u8x16', 2),
    ('_mm_avg_epu8', '__m128i', 'u8x16', 2), ('_mm_adds_epi8', '__m128i', 'i8x16', 2), ('_mm_subs_epu16', '__m128i', 'u16x8', 2),
    ('_mm_abs_epi16', '__m128i', 'i16x8', 1), ('_mm_max_epi32', '__m128i', 'i32x4', 2), ('_mm_mullo_epi32', '__m128i', 'i32x4', 2),
    ('_mm_mul_epu32', '__m128i', 'u32x4', 2), ('_mm256_cvtepi8_epi16', '__m128i', 'i8x16', 1), ('_mm_cvtepi32_ps', '__m128i', 'i32x4', 1),
    ('_mm_blend_epi16::<0x35>', '__m128i', 'u16x8', 2), ('_mm_cmpeq_epi64', '__m128i', 'u64x2', 2),
    ('_mm_cmpgt_epi64', '__m128i', 'i64x2', 2), ('_mm_insert_epi16::<3>', '', '', 0), ('_mm256_permute2x128_si256::<0x21>', '__m256i', 'u64x4', 2),
    ('_mm_bslli_si128::<3>', '__m128i', 'u8x16', 1), ('_mm_shuffle_epi32::<0x1b>', '__m128i', 'u32x4', 1),
]


def case(k):
    f, r, t, n = k
    regs = r.split()
    regs = regs + regs[-1:] * (n - len(regs))
    t = T[t]
    args = {'abc'[j]: In(t) for j in range(n)}
    args['o'] = Out('u8', 32)
    body = ('use core::arch::x86_64::*; core::ptr::write_bytes(o, 0, 32); let r = %s(%s); '
            'core::ptr::copy_nonoverlapping(&r as *const _ as *const u8, o, core::mem::size_of_val(&r));') % (
        f, ', '.join('*(%s as *const %s)' % ('abc'[j], regs[j]) for j in range(n)))
    nm = ''.join(c if c.isalnum() else '_' for c in f)
    return Case('xv_%s__%s' % (nm, t.name), args, body, lambda c: dict(o=[lambda x: True] * 32))


class P(Prop):
    id = 'XV'
    bounds = 'none'

    def configs(self, tier):
        return ['avx2']

    def cases(self, tier, cfg):
        return [case(k) for k in B if k[3]]


PROP = P()
