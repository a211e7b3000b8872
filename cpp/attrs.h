// Documented attributes of every node type: name, type (f, i, s) and default.
#pragma once
#include "api.h"
namespace attrs {
struct A { const char *name; char type; double num; const char *str; };
struct T { NodeType type; const char *name; std::vector<A> attrs; };
inline const std::vector<T> &types() {
    static std::vector<T> v;
    if (!v.empty()) return v;
    T grade{NodeType::kGrade, "Grade", {{"enable", 'i', 1, ""}}};
    static std::vector<std::string> names;
    names.reserve(64);
    for (const char *c : {"r", "g", "b", "a"}) { names.push_back(std::string("process_") + c); grade.attrs.push_back({names.back().c_str(), 'i', *c == 'a' ? 0.0 : 1.0, ""}); }
    struct P { const char *n; double d; };
    for (P p : {P{"black_point_", 0}, P{"white_point_", 1}, P{"lift_", 0}, P{"gain_", 1}, P{"multiply_", 1}, P{"offset_", 0}, P{"gamma_", 1}})
        for (const char *c : {"r", "g", "b", "a"}) { names.push_back(std::string(p.n) + c); grade.attrs.push_back({names.back().c_str(), 'f', p.d, ""}); }
    for (P p : {P{"reverse", 0}, P{"clamp_black", 1}, P{"clamp_white", 0}, P{"premult", 0}}) grade.attrs.push_back({p.n, 'i', p.d, ""});
    grade.attrs.push_back({"mix", 'f', 1, ""});
    v.push_back({NodeType::kNull, "Null", {}});
    v.push_back({NodeType::kReadImage, "ReadImage", {{"enable", 'i', 1, ""}, {"use_cache", 'i', 1, ""}, {"file_path", 's', 0, ""}}});
    v.push_back({NodeType::kWriteImage, "WriteImage", {{"enable", 'i', 1, ""}, {"execute", 'i', 1, ""}, {"file_path", 's', 0, ""}, {"crop_on_write", 'i', 2, ""}, {"pixel_data_type", 'i', 255, ""},
        {"exr_compression", 'i', 0, ""}, {"exr_dwa_compression_level", 'i', 45, ""}, {"png_compression_level", 'i', 6, ""}, {"jpeg_compression_level", 'i', 90, ""}, {"jpeg_subsampling", 'i', 0, ""}, {"jpeg_progressive", 'i', 0, ""}}});
    v.push_back(grade);
    v.push_back({NodeType::kLensDistort, "LensDistort", {{"enable", 'i', 1, ""}, {"direction", 'i', 0, ""}, {"lens_center_offset_x", 'f', 0, ""}, {"lens_center_offset_y", 'f', 0, ""}, {"distortion", 'f', 0, ""},
        {"anamorphic_squeeze", 'f', 1, ""}, {"curvature_x", 'f', 0, ""}, {"curvature_y", 'f', 0, ""}, {"quartic_distortion", 'f', 0, ""}}});
    v.push_back({NodeType::kTransform, "Transform", {{"enable", 'i', 1, ""}, {"invert", 'i', 0, ""}, {"translate_x", 'f', 0, ""}, {"translate_y", 'f', 0, ""}, {"rotate", 'f', 0, ""}, {"rotate_center_x", 'f', 0, ""},
        {"rotate_center_y", 'f', 0, ""}, {"scale_x", 'f', 1, ""}, {"scale_y", 'f', 1, ""}, {"pivot_x", 'f', 0.5, ""}, {"pivot_y", 'f', 0.5, ""}}});
    v.push_back({NodeType::kMergeImage, "MergeImage", {{"enable", 'i', 1, ""}, {"use_cache", 'i', 1, ""}, {"mode", 'i', 1, ""}, {"mix", 'f', 1, ""}}});
    v.push_back({NodeType::kCropImage, "CropImage", {{"enable", 'i', 1, ""}, {"use_cache", 'i', 1, ""}, {"window_min_x", 'i', 0, ""}, {"window_min_y", 'i', 0, ""}, {"window_max_x", 'i', 0, ""}, {"window_max_y", 'i', 0, ""},
        {"reformat", 'i', 0, ""}, {"black_outside", 'i', 0, ""}, {"intersect", 'i', 0, ""}}});
    v.push_back({NodeType::kViewer, "Viewer", {{"enable", 'i', 1, ""}, {"use_cache", 'i', 1, ""}, {"bake_option", 'i', 0, ""}, {"bake_pixel_data_type", 'i', 1, ""}, {"bake_color_space", 's', 0, "Linear"}, {"crop_to_format", 'i', 0, ""}}});
    v.push_back({NodeType::kResampleImage, "ResampleImage", {{"enable", 'i', 1, ""}, {"use_cache", 'i', 1, ""}, {"factor", 'i', 0, ""}, {"interpolate", 'i', 0, ""}}});
    return v;
}
}
