"""rough cost of a task (seconds), only to start the long ones first"""
C = {'find': 100, 'shift_right': 40, 'equal': 25, 'copy_backward': 25, 'shift_left': 20, 'copy': 15, 'transform_binary': 40, 'transform_unary': 30, 'rotate_via_raw': 28, 'text_debug_string': 26}


def cost(t, D):
    return C.get(t, 10)
