"""which module registers which check"""
import importlib

MODULES = {
    'C36': 'p_os', 'C17': 'p_lz', 'C11': 'p_string', 'C26': 'p_io', 'C27': 'p_name', 'C10': 'p_text', 'C24': 'p_trace', 'C25': 'p_trace',
    'C16': 'p_num', 'C18': 'p_num', 'C20': 'p_num',
    'C14': 'p_random', 'C15': 'p_random',
    'C12': 'p_hash', 'C13': 'p_hash',
    'C32': 'p_effects', 'C33': 'p_effects',
    'C34': 'p_types',
    'C22': 'p_atomic', 'C23': 'p_atomic',
    'C07': 'p_sort', 'C08': 'p_sort',
    'C09': 'p_small', 'C21': 'p_small', 'C28': 'p_small', 'C35': 'p_small',
    'C47': 'p_compound', 'C06': 'p_dict', 'C19': 'p_zorder',
    'C39': 'p_num',
    'C29': 'p_cdt', 'C30': 'p_cdt', 'C31': 'p_cdt', 'C37': 'p_cdt', 'C38': 'p_cdt',
    'C04': 'p_pool', 'C05': 'p_pool',
    'C01': 'p_bulk', 'C02': 'p_bulk', 'C03': 'p_bulk',
}


def load(pid):
    importlib.import_module('vf.' + MODULES[pid])


def load_all():
    for m in sorted(set(MODULES.values())):
        importlib.import_module('vf.' + m)
