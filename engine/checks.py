"""Which proof units and which concrete oracle decide which property."""
MSG_READ = ['read_message', 'read_character', 'buffer', 'string_list', 'names']
MSG_WRITE = ['write_message', 'write_buffer', 'write_escaped']
CHECKS = {
    'C01': dict(units=MSG_WRITE + MSG_READ, oracle=('proto', 'C01')),
    'C02': dict(units=MSG_READ, oracle=('proto', 'C02')),
    'C03': dict(units=MSG_WRITE, oracle=('proto', 'C03')),
    'C13': dict(units=['strmap', 'strmap_find', 'strmap_walk', 'properties'], oracle=('props', 'C13')),
    'C14': dict(units=['typed', 'properties'], oracle=('props', 'C14')),
    'C15': dict(units=['lists', 'properties'], oracle=('props', 'C15')),
    'C05': dict(units=['base64'], oracle=('image', 'C05')),
    'C06': dict(units=['image_encode', 'image_decode', 'image_size_small', 'image_objects', 'base64'], thorough=['image_size'], oracle=('image', 'C06')),
    'C07': dict(units=['region_objects', 'trax_region'], oracle=('region', 'C07')),
    'C08': dict(units=['region_convert', 'region_convert_mask', 'region_objects', 'trax_region'], oracle=('region', 'C08')),
    'C09': dict(units=['region_bounds', 'region_rect', 'trax_region'], oracle=('region', 'C09')),
    'C10': dict(units=['region_overlap', 'trax_region'], thorough=['region_bounds'], oracle=('region', 'C10')),
    'C11': dict(units=['region_mask', 'region_convert_mask', 'trax_region'], oracle=('region', 'C11')),
    'C12': dict(units=['region_points', 'region_rect', 'trax_region'], oracle=('region', 'C12')),
    'C16': dict(units=['client_send', 'client_wait'], oracle=('session', 'C16')),
    'C17': dict(units=['server_wait', 'server_reply'], oracle=('session', 'C17')),
    'C18': dict(units=['session', 'client_send', 'client_wait', 'server_wait', 'server_reply'], oracle=('session', 'C18')),
    'C19': dict(units=['hello', 'formats', 'formats_any', 'properties'], oracle=('session', 'C19')),
}
