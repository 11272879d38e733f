// Every call of the library is made with whatever errno the case has chosen, as an earlier failure
// of something else may have left it. 0: errno is left alone.
#pragma once
#include <errno.h>
extern int g_stale_errno;
static inline void stale() { if (g_stale_errno) errno = g_stale_errno; }
#define ID3v2_read_tag_header(...) (stale(), ID3v2_read_tag_header(__VA_ARGS__))
#define ID3v2_read_tag_header_from_buffer(...) (stale(), ID3v2_read_tag_header_from_buffer(__VA_ARGS__))
#define ID3v2_read_tag(...) (stale(), ID3v2_read_tag(__VA_ARGS__))
#define ID3v2_read_tag_from_buffer(...) (stale(), ID3v2_read_tag_from_buffer(__VA_ARGS__))
#define ID3v2_write_tag(...) (stale(), ID3v2_write_tag(__VA_ARGS__))
#define ID3v2_delete_tag(...) (stale(), ID3v2_delete_tag(__VA_ARGS__))
#define new_tag(...) (stale(), new_tag(__VA_ARGS__))
#define load_tag(...) (stale(), load_tag(__VA_ARGS__))
#define load_tag_with_buffer(...) (stale(), load_tag_with_buffer(__VA_ARGS__))
#define remove_tag(...) (stale(), remove_tag(__VA_ARGS__))
#define set_tag(...) (stale(), set_tag(__VA_ARGS__))
#define free_tag(...) (stale(), free_tag(__VA_ARGS__))
#define free_frame(...) (stale(), free_frame(__VA_ARGS__))
#define tag_get_title(...) (stale(), tag_get_title(__VA_ARGS__))
#define tag_get_artist(...) (stale(), tag_get_artist(__VA_ARGS__))
#define tag_get_album(...) (stale(), tag_get_album(__VA_ARGS__))
#define tag_get_album_artist(...) (stale(), tag_get_album_artist(__VA_ARGS__))
#define tag_get_genre(...) (stale(), tag_get_genre(__VA_ARGS__))
#define tag_get_track(...) (stale(), tag_get_track(__VA_ARGS__))
#define tag_get_year(...) (stale(), tag_get_year(__VA_ARGS__))
#define tag_get_comment(...) (stale(), tag_get_comment(__VA_ARGS__))
#define tag_get_disc_number(...) (stale(), tag_get_disc_number(__VA_ARGS__))
#define tag_get_composer(...) (stale(), tag_get_composer(__VA_ARGS__))
#define tag_get_album_cover(...) (stale(), tag_get_album_cover(__VA_ARGS__))
#define parse_text_frame_content(...) (stale(), parse_text_frame_content(__VA_ARGS__))
#define parse_comment_frame_content(...) (stale(), parse_comment_frame_content(__VA_ARGS__))
#define parse_apic_frame_content(...) (stale(), parse_apic_frame_content(__VA_ARGS__))
#define tag_set_title(...) (stale(), tag_set_title(__VA_ARGS__))
#define tag_set_artist(...) (stale(), tag_set_artist(__VA_ARGS__))
#define tag_set_album(...) (stale(), tag_set_album(__VA_ARGS__))
#define tag_set_album_artist(...) (stale(), tag_set_album_artist(__VA_ARGS__))
#define tag_set_genre(...) (stale(), tag_set_genre(__VA_ARGS__))
#define tag_set_track(...) (stale(), tag_set_track(__VA_ARGS__))
#define tag_set_year(...) (stale(), tag_set_year(__VA_ARGS__))
#define tag_set_comment(...) (stale(), tag_set_comment(__VA_ARGS__))
#define tag_set_disc_number(...) (stale(), tag_set_disc_number(__VA_ARGS__))
#define tag_set_composer(...) (stale(), tag_set_composer(__VA_ARGS__))
#define tag_set_album_cover(...) (stale(), tag_set_album_cover(__VA_ARGS__))
#define tag_set_album_cover_from_bytes(...) (stale(), tag_set_album_cover_from_bytes(__VA_ARGS__))
#define ID3v2_Tag_new(...) (stale(), ID3v2_Tag_new(__VA_ARGS__))
#define ID3v2_Tag_new_empty(...) (stale(), ID3v2_Tag_new_empty(__VA_ARGS__))
#define ID3v2_Tag_free(...) (stale(), ID3v2_Tag_free(__VA_ARGS__))
#define ID3v2_Tag_get_frame(...) (stale(), ID3v2_Tag_get_frame(__VA_ARGS__))
#define ID3v2_Tag_get_frames(...) (stale(), ID3v2_Tag_get_frames(__VA_ARGS__))
#define ID3v2_Tag_get_artist_frame(...) (stale(), ID3v2_Tag_get_artist_frame(__VA_ARGS__))
#define ID3v2_Tag_get_album_frame(...) (stale(), ID3v2_Tag_get_album_frame(__VA_ARGS__))
#define ID3v2_Tag_get_title_frame(...) (stale(), ID3v2_Tag_get_title_frame(__VA_ARGS__))
#define ID3v2_Tag_get_track_frame(...) (stale(), ID3v2_Tag_get_track_frame(__VA_ARGS__))
#define ID3v2_Tag_get_album_artist_frame(...) (stale(), ID3v2_Tag_get_album_artist_frame(__VA_ARGS__))
#define ID3v2_Tag_get_genre_frame(...) (stale(), ID3v2_Tag_get_genre_frame(__VA_ARGS__))
#define ID3v2_Tag_get_year_frame(...) (stale(), ID3v2_Tag_get_year_frame(__VA_ARGS__))
#define ID3v2_Tag_get_disc_number_frame(...) (stale(), ID3v2_Tag_get_disc_number_frame(__VA_ARGS__))
#define ID3v2_Tag_get_composer_frame(...) (stale(), ID3v2_Tag_get_composer_frame(__VA_ARGS__))
#define ID3v2_Tag_get_comment_frame(...) (stale(), ID3v2_Tag_get_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_get_comment_frames(...) (stale(), ID3v2_Tag_get_comment_frames(__VA_ARGS__))
#define ID3v2_Tag_get_album_cover_frame(...) (stale(), ID3v2_Tag_get_album_cover_frame(__VA_ARGS__))
#define ID3v2_Tag_get_apic_frames(...) (stale(), ID3v2_Tag_get_apic_frames(__VA_ARGS__))
#define ID3v2_Tag_set_text_frame(...) (stale(), ID3v2_Tag_set_text_frame(__VA_ARGS__))
#define ID3v2_Tag_set_artist(...) (stale(), ID3v2_Tag_set_artist(__VA_ARGS__))
#define ID3v2_Tag_set_album(...) (stale(), ID3v2_Tag_set_album(__VA_ARGS__))
#define ID3v2_Tag_set_title(...) (stale(), ID3v2_Tag_set_title(__VA_ARGS__))
#define ID3v2_Tag_set_track(...) (stale(), ID3v2_Tag_set_track(__VA_ARGS__))
#define ID3v2_Tag_set_album_artist(...) (stale(), ID3v2_Tag_set_album_artist(__VA_ARGS__))
#define ID3v2_Tag_set_genre(...) (stale(), ID3v2_Tag_set_genre(__VA_ARGS__))
#define ID3v2_Tag_set_year(...) (stale(), ID3v2_Tag_set_year(__VA_ARGS__))
#define ID3v2_Tag_set_disc_number(...) (stale(), ID3v2_Tag_set_disc_number(__VA_ARGS__))
#define ID3v2_Tag_set_composer(...) (stale(), ID3v2_Tag_set_composer(__VA_ARGS__))
#define ID3v2_Tag_set_comment_frame(...) (stale(), ID3v2_Tag_set_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_add_comment_frame(...) (stale(), ID3v2_Tag_add_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_set_comment(...) (stale(), ID3v2_Tag_set_comment(__VA_ARGS__))
#define ID3v2_Tag_add_apic_frame(...) (stale(), ID3v2_Tag_add_apic_frame(__VA_ARGS__))
#define ID3v2_Tag_set_apic_frame(...) (stale(), ID3v2_Tag_set_apic_frame(__VA_ARGS__))
#define ID3v2_Tag_set_album_cover(...) (stale(), ID3v2_Tag_set_album_cover(__VA_ARGS__))
#define ID3v2_Tag_delete_frame(...) (stale(), ID3v2_Tag_delete_frame(__VA_ARGS__))
#define ID3v2_Tag_delete_artist(...) (stale(), ID3v2_Tag_delete_artist(__VA_ARGS__))
#define ID3v2_Tag_delete_album(...) (stale(), ID3v2_Tag_delete_album(__VA_ARGS__))
#define ID3v2_Tag_delete_title(...) (stale(), ID3v2_Tag_delete_title(__VA_ARGS__))
#define ID3v2_Tag_delete_track(...) (stale(), ID3v2_Tag_delete_track(__VA_ARGS__))
#define ID3v2_Tag_delete_album_artist(...) (stale(), ID3v2_Tag_delete_album_artist(__VA_ARGS__))
#define ID3v2_Tag_delete_genre(...) (stale(), ID3v2_Tag_delete_genre(__VA_ARGS__))
#define ID3v2_Tag_delete_year(...) (stale(), ID3v2_Tag_delete_year(__VA_ARGS__))
#define ID3v2_Tag_delete_disc_number(...) (stale(), ID3v2_Tag_delete_disc_number(__VA_ARGS__))
#define ID3v2_Tag_delete_composer(...) (stale(), ID3v2_Tag_delete_composer(__VA_ARGS__))
#define ID3v2_Tag_delete_comment_frame(...) (stale(), ID3v2_Tag_delete_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_delete_comment(...) (stale(), ID3v2_Tag_delete_comment(__VA_ARGS__))
#define ID3v2_Tag_delete_apic_frame(...) (stale(), ID3v2_Tag_delete_apic_frame(__VA_ARGS__))
#define ID3v2_Tag_delete_album_cover(...) (stale(), ID3v2_Tag_delete_album_cover(__VA_ARGS__))
#define ID3v2_to_unicode(...) (stale(), ID3v2_to_unicode(__VA_ARGS__))
#define ID3v2_strlen(...) (stale(), ID3v2_strlen(__VA_ARGS__))
#define ID3v2_strlent(...) (stale(), ID3v2_strlent(__VA_ARGS__))
#define ID3v2_Frame_free(...) (stale(), ID3v2_Frame_free(__VA_ARGS__))
#define ID3v2_FrameList_free(...) (stale(), ID3v2_FrameList_free(__VA_ARGS__))
#define ID3v2_FrameList_unlink(...) (stale(), ID3v2_FrameList_unlink(__VA_ARGS__))
#define ID3v2_TagHeader_free(...) (stale(), ID3v2_TagHeader_free(__VA_ARGS__))
