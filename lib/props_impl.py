from p_dom import REG
import p_tree
import p_clone
import p_file
import p_update
import p_style
import p_cache
import p_uri
import p_kmz, p_entity, p_bbox, p_types, p_walk, p_csv, p_region, p_life, p_fields, p_attrs, p_conv, p_feed, p_xsd, p_disk, p_locale, p_geo, p_strs, p_schema
