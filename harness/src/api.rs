//! One random call for each public method (made by tools/mkfuzz.py).
#![allow(clippy::all, unused)]

use crate::hostile::G;
use rust_xlsxwriter::*;

pub fn g_button(g: &mut G) -> Button {
    let mut x = match g.below(1) {
        _ => {  g.call("Button::new"); Button::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_button(g, &mut x); });
    x
}

pub fn m_button(g: &mut G, x: &mut Button) {
    match g.below(6) {
        0 => { let a0 = g.string(0); g.call("Button::set_caption"); *x = x.clone().set_caption(a0); }
        1 => { let a0 = g.string(3); g.call("Button::set_macro"); *x = x.clone().set_macro(a0); }
        2 => { let a0 = g.u32(); g.call("Button::set_width"); *x = x.clone().set_width(a0); }
        3 => { let a0 = g.u32(); g.call("Button::set_height"); *x = x.clone().set_height(a0); }
        4 => { let a0 = g.string(0); g.call("Button::set_alt_text"); *x = x.clone().set_alt_text(a0); }
        _ => { let a0 = g_object_movement(g); g.call("Button::set_object_movement"); *x = x.clone().set_object_movement(a0); }
    }
}

pub fn g_chart(g: &mut G) -> Chart {
    let mut x = match g.below(10) {
        0 => { let a0 = g_chart_type(g); g.call("Chart::new"); Chart::new(a0) }
        1 => {  g.call("Chart::new_area"); Chart::new_area() }
        2 => {  g.call("Chart::new_bar"); Chart::new_bar() }
        3 => {  g.call("Chart::new_column"); Chart::new_column() }
        4 => {  g.call("Chart::new_doughnut"); Chart::new_doughnut() }
        5 => {  g.call("Chart::new_line"); Chart::new_line() }
        6 => {  g.call("Chart::new_pie"); Chart::new_pie() }
        7 => {  g.call("Chart::new_radar"); Chart::new_radar() }
        8 => {  g.call("Chart::new_scatter"); Chart::new_scatter() }
        _ => {  g.call("Chart::new_stock"); Chart::new_stock() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart(g, &mut x); });
    x
}

pub fn m_chart(g: &mut G, x: &mut Chart) {
    match g.below(34) {
        0 => {  g.call("Chart::add_series"); let y = x.add_series(); m_chart_series(g, y); }
        1 => { let a0 = g_chart_series(g); g.call("Chart::push_series"); let _ = x.push_series(&a0); }
        2 => {  g.call("Chart::title"); let y = x.title(); m_chart_title(g, y); }
        3 => {  g.call("Chart::x_axis"); let y = x.x_axis(); m_chart_axis(g, y); }
        4 => {  g.call("Chart::y_axis"); let y = x.y_axis(); m_chart_axis(g, y); }
        5 => {  g.call("Chart::x2_axis"); let y = x.x2_axis(); m_chart_axis(g, y); }
        6 => {  g.call("Chart::y2_axis"); let y = x.y2_axis(); m_chart_axis(g, y); }
        7 => {  g.call("Chart::legend"); let y = x.legend(); m_chart_legend(g, y); }
        8 => {  g.call("Chart::chart_area"); let y = x.chart_area(); m_chart_area(g, y); }
        9 => {  g.call("Chart::plot_area"); let y = x.plot_area(); m_chart_plot_area(g, y); }
        10 => { let a0 = g_chart(g); g.call("Chart::combine"); let _ = x.combine(&a0); }
        11 => { let a0 = g.u8(); g.call("Chart::set_style"); let _ = x.set_style(a0); }
        12 => { let a0 = g.u16(); g.call("Chart::set_rotation"); let _ = x.set_rotation(a0); }
        13 => { let a0 = g.u8(); g.call("Chart::set_hole_size"); let _ = x.set_hole_size(a0); }
        14 => { let a0 = g.bool(); g.call("Chart::set_up_down_bars"); let _ = x.set_up_down_bars(a0); }
        15 => { let mut a0 = g_chart_format(g); g.call("Chart::set_up_bar_format"); let _ = x.set_up_bar_format(&mut a0); }
        16 => { let mut a0 = g_chart_format(g); g.call("Chart::set_down_bar_format"); let _ = x.set_down_bar_format(&mut a0); }
        17 => { let a0 = g.bool(); g.call("Chart::set_high_low_lines"); let _ = x.set_high_low_lines(a0); }
        18 => { let mut a0 = g_chart_format(g); g.call("Chart::set_high_low_lines_format"); let _ = x.set_high_low_lines_format(&mut a0); }
        19 => { let a0 = g.bool(); g.call("Chart::set_drop_lines"); let _ = x.set_drop_lines(a0); }
        20 => { let mut a0 = g_chart_format(g); g.call("Chart::set_drop_lines_format"); let _ = x.set_drop_lines_format(&mut a0); }
        21 => { let a0 = g_chart_data_table(g); g.call("Chart::set_data_table"); let _ = x.set_data_table(&a0); }
        22 => { let a0 = g.u32(); g.call("Chart::set_width"); let _ = x.set_width(a0); }
        23 => { let a0 = g.u32(); g.call("Chart::set_height"); let _ = x.set_height(a0); }
        24 => { let a0 = g.f64(); g.call("Chart::set_scale_height"); let _ = x.set_scale_height(a0); }
        25 => { let a0 = g.f64(); g.call("Chart::set_scale_width"); let _ = x.set_scale_width(a0); }
        26 => { let a0 = g.string(3); g.call("Chart::set_name"); let _ = x.set_name(a0); }
        27 => { let a0 = g.string(0); g.call("Chart::set_alt_text"); let _ = x.set_alt_text(a0); }
        28 => { let a0 = g.bool(); g.call("Chart::set_decorative"); let _ = x.set_decorative(a0); }
        29 => { let a0 = g_object_movement(g); g.call("Chart::set_object_movement"); let _ = x.set_object_movement(a0); }
        30 => {  g.call("Chart::validate"); let ok = x.validate().is_ok(); g.result(ok); }
        31 => { let a0 = g_chart_empty_cells(g); g.call("Chart::show_empty_cells_as"); let _ = x.show_empty_cells_as(a0); }
        32 => {  g.call("Chart::show_na_as_empty_cell"); let _ = x.show_na_as_empty_cell(); }
        _ => {  g.call("Chart::show_hidden_data"); let _ = x.show_hidden_data(); }
    }
}

pub fn g_chart_area(g: &mut G) -> ChartArea {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartArea::new"); ChartArea::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_area(g, &mut x); });
    x
}

pub fn m_chart_area(g: &mut G, x: &mut ChartArea) {
    match g.below(1) {
        _ => { let mut a0 = g_chart_format(g); g.call("ChartArea::set_format"); let _ = x.set_format(&mut a0); }
    }
}

pub fn m_chart_axis(g: &mut G, x: &mut ChartAxis) {
    match g.below(34) {
        0 => { let a0 = g.range(); g.call("ChartAxis::set_name"); let _ = x.set_name(a0.as_str()); }
        1 => { let a0 = g_chart_font(g); g.call("ChartAxis::set_name_font"); let _ = x.set_name_font(&a0); }
        2 => { let mut a0 = g_chart_format(g); g.call("ChartAxis::set_format"); let _ = x.set_format(&mut a0); }
        3 => { let a0 = g_chart_font(g); g.call("ChartAxis::set_font"); let _ = x.set_font(&a0); }
        4 => { let a0 = g.string(5); g.call("ChartAxis::set_num_format"); let _ = x.set_num_format(a0); }
        5 => { let a0 = g.bool(); g.call("ChartAxis::set_date_axis"); let _ = x.set_date_axis(a0); }
        6 => { let a0 = g.bool(); g.call("ChartAxis::set_text_axis"); let _ = x.set_text_axis(a0); }
        7 => { let a0 = g.bool(); g.call("ChartAxis::set_automatic_axis"); let _ = x.set_automatic_axis(a0); }
        8 => { let a0 = g_chart_axis_crossing(g); g.call("ChartAxis::set_crossing"); let _ = x.set_crossing(a0); }
        9 => {  g.call("ChartAxis::set_reverse"); let _ = x.set_reverse(); }
        10 => { let a0 = g.f64(); g.call("ChartAxis::set_max"); let _ = x.set_max(a0); }
        11 => { let a0 = g.f64(); g.call("ChartAxis::set_min"); let _ = x.set_min(a0); }
        12 => { let a0 = g.date(); g.call("ChartAxis::set_max_date"); let _ = x.set_max_date(&a0); }
        13 => { let a0 = g.date(); g.call("ChartAxis::set_min_date"); let _ = x.set_min_date(&a0); }
        14 => { let a0 = g.f64(); g.call("ChartAxis::set_major_unit"); let _ = x.set_major_unit(a0); }
        15 => { let a0 = g.f64(); g.call("ChartAxis::set_minor_unit"); let _ = x.set_minor_unit(a0); }
        16 => { let a0 = g_chart_axis_display_unit_type(g); g.call("ChartAxis::set_display_unit_type"); let _ = x.set_display_unit_type(a0); }
        17 => { let a0 = g.bool(); g.call("ChartAxis::set_display_units_visible"); let _ = x.set_display_units_visible(a0); }
        18 => { let a0 = g_chart_axis_date_unit_type(g); g.call("ChartAxis::set_major_unit_date_type"); let _ = x.set_major_unit_date_type(a0); }
        19 => { let a0 = g_chart_axis_date_unit_type(g); g.call("ChartAxis::set_minor_unit_date_type"); let _ = x.set_minor_unit_date_type(a0); }
        20 => { let a0 = g_chart_axis_label_alignment(g); g.call("ChartAxis::set_label_alignment"); let _ = x.set_label_alignment(a0); }
        21 => { let a0 = g.bool(); g.call("ChartAxis::set_major_gridlines"); let _ = x.set_major_gridlines(a0); }
        22 => { let a0 = g.bool(); g.call("ChartAxis::set_minor_gridlines"); let _ = x.set_minor_gridlines(a0); }
        23 => { let a0 = g_chart_line(g); g.call("ChartAxis::set_major_gridlines_line"); let _ = x.set_major_gridlines_line(&a0); }
        24 => { let a0 = g_chart_line(g); g.call("ChartAxis::set_minor_gridlines_line"); let _ = x.set_minor_gridlines_line(&a0); }
        25 => { let a0 = g_chart_axis_label_position(g); g.call("ChartAxis::set_label_position"); let _ = x.set_label_position(a0); }
        26 => { let a0 = g.bool(); g.call("ChartAxis::set_position_between_ticks"); let _ = x.set_position_between_ticks(a0); }
        27 => { let a0 = g.u16(); g.call("ChartAxis::set_label_interval"); let _ = x.set_label_interval(a0); }
        28 => { let a0 = g.u16(); g.call("ChartAxis::set_tick_interval"); let _ = x.set_tick_interval(a0); }
        29 => { let a0 = g_chart_axis_tick_type(g); g.call("ChartAxis::set_major_tick_type"); let _ = x.set_major_tick_type(a0); }
        30 => { let a0 = g_chart_axis_tick_type(g); g.call("ChartAxis::set_minor_tick_type"); let _ = x.set_minor_tick_type(a0); }
        31 => { let a0 = g.u16(); g.call("ChartAxis::set_log_base"); let _ = x.set_log_base(a0); }
        32 => { let a0 = g.bool(); g.call("ChartAxis::set_hidden"); let _ = x.set_hidden(a0); }
        _ => { let a0 = g_chart_layout(g); g.call("ChartAxis::set_label_layout"); let _ = x.set_label_layout(&a0); }
    }
}

pub fn g_chart_data_label(g: &mut G) -> ChartDataLabel {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartDataLabel::new"); ChartDataLabel::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_data_label(g, &mut x); });
    x
}

pub fn m_chart_data_label(g: &mut G, x: &mut ChartDataLabel) {
    match g.below(16) {
        0 => {  g.call("ChartDataLabel::show_value"); let _ = x.show_value(); }
        1 => {  g.call("ChartDataLabel::show_category_name"); let _ = x.show_category_name(); }
        2 => {  g.call("ChartDataLabel::show_series_name"); let _ = x.show_series_name(); }
        3 => {  g.call("ChartDataLabel::show_leader_lines"); let _ = x.show_leader_lines(); }
        4 => {  g.call("ChartDataLabel::show_legend_key"); let _ = x.show_legend_key(); }
        5 => {  g.call("ChartDataLabel::show_percentage"); let _ = x.show_percentage(); }
        6 => { let a0 = g_chart_data_label_position(g); g.call("ChartDataLabel::set_position"); let _ = x.set_position(a0); }
        7 => { let mut a0 = g_chart_format(g); g.call("ChartDataLabel::set_format"); let _ = x.set_format(&mut a0); }
        8 => { let a0 = g_chart_font(g); g.call("ChartDataLabel::set_font"); let _ = x.set_font(&a0); }
        9 => { let a0 = g.string(5); g.call("ChartDataLabel::set_num_format"); let _ = x.set_num_format(a0); }
        10 => { let a0 = g.char(); g.call("ChartDataLabel::set_separator"); let _ = x.set_separator(a0); }
        11 => {  g.call("ChartDataLabel::show_y_value"); let _ = x.show_y_value(); }
        12 => {  g.call("ChartDataLabel::show_x_value"); let _ = x.show_x_value(); }
        13 => { let a0 = g.range(); g.call("ChartDataLabel::set_value"); let _ = x.set_value(a0.as_str()); }
        14 => {  g.call("ChartDataLabel::set_hidden"); let _ = x.set_hidden(); }
        _ => {  g.call("ChartDataLabel::to_custom"); let _ = x.to_custom(); }
    }
}

pub fn g_chart_data_table(g: &mut G) -> ChartDataTable {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartDataTable::new"); ChartDataTable::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_data_table(g, &mut x); });
    x
}

pub fn m_chart_data_table(g: &mut G, x: &mut ChartDataTable) {
    match g.below(6) {
        0 => { let a0 = g.bool(); g.call("ChartDataTable::show_horizontal_borders"); *x = x.clone().show_horizontal_borders(a0); }
        1 => { let a0 = g.bool(); g.call("ChartDataTable::show_vertical_borders"); *x = x.clone().show_vertical_borders(a0); }
        2 => { let a0 = g.bool(); g.call("ChartDataTable::show_outline_borders"); *x = x.clone().show_outline_borders(a0); }
        3 => { let a0 = g.bool(); g.call("ChartDataTable::show_legend_keys"); *x = x.clone().show_legend_keys(a0); }
        4 => { let mut a0 = g_chart_format(g); g.call("ChartDataTable::set_format"); *x = x.clone().set_format(&mut a0); }
        _ => { let a0 = g_chart_font(g); g.call("ChartDataTable::set_font"); *x = x.clone().set_font(&a0); }
    }
}

pub fn g_chart_error_bars(g: &mut G) -> ChartErrorBars {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartErrorBars::new"); ChartErrorBars::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_error_bars(g, &mut x); });
    x
}

pub fn m_chart_error_bars(g: &mut G, x: &mut ChartErrorBars) {
    match g.below(4) {
        0 => { let a0 = g_chart_error_bars_type(g); g.call("ChartErrorBars::set_type"); let _ = x.set_type(a0); }
        1 => { let a0 = g_chart_error_bars_direction(g); g.call("ChartErrorBars::set_direction"); let _ = x.set_direction(a0); }
        2 => { let a0 = g.bool(); g.call("ChartErrorBars::set_end_cap"); let _ = x.set_end_cap(a0); }
        _ => { let mut a0 = g_chart_format(g); g.call("ChartErrorBars::set_format"); let _ = x.set_format(&mut a0); }
    }
}

pub fn g_chart_font(g: &mut G) -> ChartFont {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartFont::new"); ChartFont::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_font(g, &mut x); });
    x
}

pub fn m_chart_font(g: &mut G, x: &mut ChartFont) {
    match g.below(12) {
        0 => {  g.call("ChartFont::set_bold"); let _ = x.set_bold(); }
        1 => {  g.call("ChartFont::set_italic"); let _ = x.set_italic(); }
        2 => { let a0 = g.color(); g.call("ChartFont::set_color"); let _ = x.set_color(a0); }
        3 => { let a0 = g.string(3); g.call("ChartFont::set_name"); let _ = x.set_name(a0); }
        4 => { let a0 = g.f64(); g.call("ChartFont::set_size"); let _ = x.set_size(a0); }
        5 => { let a0 = g.i16(); g.call("ChartFont::set_rotation"); let _ = x.set_rotation(a0); }
        6 => {  g.call("ChartFont::set_underline"); let _ = x.set_underline(); }
        7 => {  g.call("ChartFont::set_strikethrough"); let _ = x.set_strikethrough(); }
        8 => {  g.call("ChartFont::unset_bold"); let _ = x.unset_bold(); }
        9 => { let a0 = g.bool(); g.call("ChartFont::set_right_to_left"); let _ = x.set_right_to_left(a0); }
        10 => { let a0 = g.u8(); g.call("ChartFont::set_pitch_family"); let _ = x.set_pitch_family(a0); }
        _ => { let a0 = g.u8(); g.call("ChartFont::set_character_set"); let _ = x.set_character_set(a0); }
    }
}

pub fn g_chart_format(g: &mut G) -> ChartFormat {
    let mut x = ChartFormat::new();
    g.deeper(|g, n| for _ in 0..n { m_chart_format(g, &mut x); });
    x
}

pub fn m_chart_format(g: &mut G, x: &mut ChartFormat) {
    match g.below(8) {
        0 => { let a0 = g_chart_line(g); g.call("ChartFormat::set_line"); let _ = x.set_line(&a0); }
        1 => { let a0 = g_chart_line(g); g.call("ChartFormat::set_border"); let _ = x.set_border(&a0); }
        2 => {  g.call("ChartFormat::set_no_line"); let _ = x.set_no_line(); }
        3 => {  g.call("ChartFormat::set_no_border"); let _ = x.set_no_border(); }
        4 => {  g.call("ChartFormat::set_no_fill"); let _ = x.set_no_fill(); }
        5 => { let a0 = g_chart_solid_fill(g); g.call("ChartFormat::set_solid_fill"); let _ = x.set_solid_fill(&a0); }
        6 => { let a0 = g_chart_pattern_fill(g); g.call("ChartFormat::set_pattern_fill"); let _ = x.set_pattern_fill(&a0); }
        _ => { let a0 = g_chart_gradient_fill(g); g.call("ChartFormat::set_gradient_fill"); let _ = x.set_gradient_fill(&a0); }
    }
}

pub fn g_chart_gradient_fill(g: &mut G) -> ChartGradientFill {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartGradientFill::new"); ChartGradientFill::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_gradient_fill(g, &mut x); });
    x
}

pub fn m_chart_gradient_fill(g: &mut G, x: &mut ChartGradientFill) {
    match g.below(3) {
        0 => { let a0 = g_chart_gradient_fill_type(g); g.call("ChartGradientFill::set_type"); let _ = x.set_type(a0); }
        1 => { let a0 = g.list(g_chart_gradient_stop); g.call("ChartGradientFill::set_gradient_stops"); let _ = x.set_gradient_stops(&a0); }
        _ => { let a0 = g.u16(); g.call("ChartGradientFill::set_angle"); let _ = x.set_angle(a0); }
    }
}

pub fn g_chart_gradient_stop(g: &mut G) -> ChartGradientStop {
    let mut x = match g.below(1) {
        _ => { let a0 = g.color(); let a1 = g.u8(); g.call("ChartGradientStop::new"); ChartGradientStop::new(a0, a1) }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_gradient_stop(g, &mut x); });
    x
}

pub fn m_chart_gradient_stop(g: &mut G, x: &mut ChartGradientStop) {
}

pub fn g_chart_layout(g: &mut G) -> ChartLayout {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartLayout::new"); ChartLayout::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_layout(g, &mut x); });
    x
}

pub fn m_chart_layout(g: &mut G, x: &mut ChartLayout) {
    match g.below(2) {
        0 => { let a0 = g.f64(); let a1 = g.f64(); g.call("ChartLayout::set_offset"); *x = x.clone().set_offset(a0, a1); }
        _ => { let a0 = g.f64(); let a1 = g.f64(); g.call("ChartLayout::set_dimensions"); *x = x.clone().set_dimensions(a0, a1); }
    }
}

pub fn m_chart_legend(g: &mut G, x: &mut ChartLegend) {
    match g.below(7) {
        0 => {  g.call("ChartLegend::set_hidden"); let _ = x.set_hidden(); }
        1 => { let a0 = g_chart_legend_position(g); g.call("ChartLegend::set_position"); let _ = x.set_position(a0); }
        2 => { let a0 = g.bool(); g.call("ChartLegend::set_overlay"); let _ = x.set_overlay(a0); }
        3 => { let a0 = g_chart_layout(g); g.call("ChartLegend::set_layout"); let _ = x.set_layout(&a0); }
        4 => { let mut a0 = g_chart_format(g); g.call("ChartLegend::set_format"); let _ = x.set_format(&mut a0); }
        5 => { let a0 = g_chart_font(g); g.call("ChartLegend::set_font"); let _ = x.set_font(&a0); }
        _ => { let a0 = g.list(|g| g.usize()); g.call("ChartLegend::delete_entries"); let _ = x.delete_entries(&a0); }
    }
}

pub fn g_chart_line(g: &mut G) -> ChartLine {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartLine::new"); ChartLine::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_line(g, &mut x); });
    x
}

pub fn m_chart_line(g: &mut G, x: &mut ChartLine) {
    match g.below(5) {
        0 => { let a0 = g.color(); g.call("ChartLine::set_color"); let _ = x.set_color(a0); }
        1 => { let a0 = g.f64(); g.call("ChartLine::set_width"); let _ = x.set_width(a0); }
        2 => { let a0 = g_chart_line_dash_type(g); g.call("ChartLine::set_dash_type"); let _ = x.set_dash_type(a0); }
        3 => { let a0 = g.u8(); g.call("ChartLine::set_transparency"); let _ = x.set_transparency(a0); }
        _ => { let a0 = g.bool(); g.call("ChartLine::set_hidden"); let _ = x.set_hidden(a0); }
    }
}

pub fn g_chart_marker(g: &mut G) -> ChartMarker {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartMarker::new"); ChartMarker::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_marker(g, &mut x); });
    x
}

pub fn m_chart_marker(g: &mut G, x: &mut ChartMarker) {
    match g.below(5) {
        0 => {  g.call("ChartMarker::set_automatic"); let _ = x.set_automatic(); }
        1 => {  g.call("ChartMarker::set_none"); let _ = x.set_none(); }
        2 => { let a0 = g_chart_marker_type(g); g.call("ChartMarker::set_type"); let _ = x.set_type(a0); }
        3 => { let a0 = g.u8(); g.call("ChartMarker::set_size"); let _ = x.set_size(a0); }
        _ => { let mut a0 = g_chart_format(g); g.call("ChartMarker::set_format"); let _ = x.set_format(&mut a0); }
    }
}

pub fn g_chart_pattern_fill(g: &mut G) -> ChartPatternFill {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartPatternFill::new"); ChartPatternFill::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_pattern_fill(g, &mut x); });
    x
}

pub fn m_chart_pattern_fill(g: &mut G, x: &mut ChartPatternFill) {
    match g.below(3) {
        0 => { let a0 = g_chart_pattern_fill_type(g); g.call("ChartPatternFill::set_pattern"); let _ = x.set_pattern(a0); }
        1 => { let a0 = g.color(); g.call("ChartPatternFill::set_background_color"); let _ = x.set_background_color(a0); }
        _ => { let a0 = g.color(); g.call("ChartPatternFill::set_foreground_color"); let _ = x.set_foreground_color(a0); }
    }
}

pub fn g_chart_plot_area(g: &mut G) -> ChartPlotArea {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartPlotArea::new"); ChartPlotArea::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_plot_area(g, &mut x); });
    x
}

pub fn m_chart_plot_area(g: &mut G, x: &mut ChartPlotArea) {
    match g.below(2) {
        0 => { let mut a0 = g_chart_format(g); g.call("ChartPlotArea::set_format"); let _ = x.set_format(&mut a0); }
        _ => { let a0 = g_chart_layout(g); g.call("ChartPlotArea::set_layout"); let _ = x.set_layout(&a0); }
    }
}

pub fn g_chart_point(g: &mut G) -> ChartPoint {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartPoint::new"); ChartPoint::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_point(g, &mut x); });
    x
}

pub fn m_chart_point(g: &mut G, x: &mut ChartPoint) {
    match g.below(1) {
        _ => { let mut a0 = g_chart_format(g); g.call("ChartPoint::set_format"); *x = x.clone().set_format(&mut a0); }
    }
}

pub fn g_chart_range(g: &mut G) -> ChartRange {
    let mut x = match g.below(2) {
        0 => { let (r0, c0, r1, c1) = g.range4(); let a0 = g.string(3); g.call("ChartRange::new_from_range"); ChartRange::new_from_range(&a0, r0, c0, r1, c1) }
        _ => { let a0 = g.string(1); g.call("ChartRange::new_from_string"); ChartRange::new_from_string(&a0) }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_range(g, &mut x); });
    x
}

pub fn m_chart_range(g: &mut G, x: &mut ChartRange) {
}

pub fn g_chart_series(g: &mut G) -> ChartSeries {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartSeries::new"); ChartSeries::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_series(g, &mut x); });
    x
}

pub fn m_chart_series(g: &mut G, x: &mut ChartSeries) {
    match g.below(19) {
        0 => { let a0 = g.range(); g.call("ChartSeries::set_values"); let _ = x.set_values(a0.as_str()); }
        1 => { let a0 = g.range(); g.call("ChartSeries::set_categories"); let _ = x.set_categories(a0.as_str()); }
        2 => { let a0 = g.bool(); g.call("ChartSeries::set_secondary_axis"); let _ = x.set_secondary_axis(a0); }
        3 => { let a0 = g.range(); g.call("ChartSeries::set_name"); let _ = x.set_name(a0.as_str()); }
        4 => { let mut a0 = g_chart_format(g); g.call("ChartSeries::set_format"); let _ = x.set_format(&mut a0); }
        5 => { let a0 = g_chart_marker(g); g.call("ChartSeries::set_marker"); let _ = x.set_marker(&a0); }
        6 => { let a0 = g_chart_data_label(g); g.call("ChartSeries::set_data_label"); let _ = x.set_data_label(&a0); }
        7 => { let a0 = g.list(g_chart_data_label); g.call("ChartSeries::set_custom_data_labels"); let _ = x.set_custom_data_labels(&a0); }
        8 => { let a0 = g.list(g_chart_point); g.call("ChartSeries::set_points"); let _ = x.set_points(&a0); }
        9 => { let a0 = g.list(|g| g.color()); g.call("ChartSeries::set_point_colors"); let _ = x.set_point_colors(&a0); }
        10 => { let a0 = g_chart_trendline(g); g.call("ChartSeries::set_trendline"); let _ = x.set_trendline(&a0); }
        11 => { let a0 = g_chart_error_bars(g); g.call("ChartSeries::set_y_error_bars"); let _ = x.set_y_error_bars(&a0); }
        12 => { let a0 = g_chart_error_bars(g); g.call("ChartSeries::set_x_error_bars"); let _ = x.set_x_error_bars(&a0); }
        13 => { let a0 = g.i8(); g.call("ChartSeries::set_overlap"); let _ = x.set_overlap(a0); }
        14 => { let a0 = g.u16(); g.call("ChartSeries::set_gap"); let _ = x.set_gap(a0); }
        15 => { let a0 = g.bool(); g.call("ChartSeries::set_smooth"); let _ = x.set_smooth(a0); }
        16 => {  g.call("ChartSeries::set_invert_if_negative"); let _ = x.set_invert_if_negative(); }
        17 => { let a0 = g.color(); g.call("ChartSeries::set_invert_if_negative_color"); let _ = x.set_invert_if_negative_color(a0); }
        _ => { let a0 = g.bool(); g.call("ChartSeries::delete_from_legend"); let _ = x.delete_from_legend(a0); }
    }
}

pub fn g_chart_solid_fill(g: &mut G) -> ChartSolidFill {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartSolidFill::new"); ChartSolidFill::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_solid_fill(g, &mut x); });
    x
}

pub fn m_chart_solid_fill(g: &mut G, x: &mut ChartSolidFill) {
    match g.below(2) {
        0 => { let a0 = g.color(); g.call("ChartSolidFill::set_color"); let _ = x.set_color(a0); }
        _ => { let a0 = g.u8(); g.call("ChartSolidFill::set_transparency"); let _ = x.set_transparency(a0); }
    }
}

pub fn m_chart_title(g: &mut G, x: &mut ChartTitle) {
    match g.below(6) {
        0 => { let a0 = g.range(); g.call("ChartTitle::set_name"); let _ = x.set_name(a0.as_str()); }
        1 => {  g.call("ChartTitle::set_hidden"); let _ = x.set_hidden(); }
        2 => { let mut a0 = g_chart_format(g); g.call("ChartTitle::set_format"); let _ = x.set_format(&mut a0); }
        3 => { let a0 = g_chart_font(g); g.call("ChartTitle::set_font"); let _ = x.set_font(&a0); }
        4 => { let a0 = g_chart_layout(g); g.call("ChartTitle::set_layout"); let _ = x.set_layout(&a0); }
        _ => { let a0 = g.bool(); g.call("ChartTitle::set_overlay"); let _ = x.set_overlay(a0); }
    }
}

pub fn g_chart_trendline(g: &mut G) -> ChartTrendline {
    let mut x = match g.below(1) {
        _ => {  g.call("ChartTrendline::new"); ChartTrendline::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_chart_trendline(g, &mut x); });
    x
}

pub fn m_chart_trendline(g: &mut G, x: &mut ChartTrendline) {
    match g.below(11) {
        0 => { let a0 = g_chart_trendline_type(g); g.call("ChartTrendline::set_type"); let _ = x.set_type(a0); }
        1 => { let mut a0 = g_chart_format(g); g.call("ChartTrendline::set_format"); let _ = x.set_format(&mut a0); }
        2 => { let mut a0 = g_chart_format(g); g.call("ChartTrendline::set_label_format"); let _ = x.set_label_format(&mut a0); }
        3 => { let a0 = g_chart_font(g); g.call("ChartTrendline::set_label_font"); let _ = x.set_label_font(&a0); }
        4 => { let a0 = g.string(3); g.call("ChartTrendline::set_name"); let _ = x.set_name(a0); }
        5 => { let a0 = g.f64(); g.call("ChartTrendline::set_forward_period"); let _ = x.set_forward_period(a0); }
        6 => { let a0 = g.f64(); g.call("ChartTrendline::set_backward_period"); let _ = x.set_backward_period(a0); }
        7 => { let a0 = g.bool(); g.call("ChartTrendline::display_equation"); let _ = x.display_equation(a0); }
        8 => { let a0 = g.bool(); g.call("ChartTrendline::display_r_squared"); let _ = x.display_r_squared(a0); }
        9 => { let a0 = g.f64(); g.call("ChartTrendline::set_intercept"); let _ = x.set_intercept(a0); }
        _ => { let a0 = g.bool(); g.call("ChartTrendline::delete_from_legend"); let _ = x.delete_from_legend(a0); }
    }
}

pub fn g_conditional_format2_color_scale(g: &mut G) -> ConditionalFormat2ColorScale {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormat2ColorScale::new"); ConditionalFormat2ColorScale::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format2_color_scale(g, &mut x); });
    x
}

pub fn m_conditional_format2_color_scale(g: &mut G, x: &mut ConditionalFormat2ColorScale) {
    match g.below(4) {
        0 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormat2ColorScale::set_minimum"); *x = x.clone().set_minimum(a0, a1); }
        1 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormat2ColorScale::set_maximum"); *x = x.clone().set_maximum(a0, a1); }
        2 => { let a0 = g.color(); g.call("ConditionalFormat2ColorScale::set_minimum_color"); *x = x.clone().set_minimum_color(a0); }
        _ => { let a0 = g.color(); g.call("ConditionalFormat2ColorScale::set_maximum_color"); *x = x.clone().set_maximum_color(a0); }
    }
}

pub fn g_conditional_format3_color_scale(g: &mut G) -> ConditionalFormat3ColorScale {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormat3ColorScale::new"); ConditionalFormat3ColorScale::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format3_color_scale(g, &mut x); });
    x
}

pub fn m_conditional_format3_color_scale(g: &mut G, x: &mut ConditionalFormat3ColorScale) {
    match g.below(6) {
        0 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormat3ColorScale::set_minimum"); *x = x.clone().set_minimum(a0, a1); }
        1 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormat3ColorScale::set_midpoint"); *x = x.clone().set_midpoint(a0, a1); }
        2 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormat3ColorScale::set_maximum"); *x = x.clone().set_maximum(a0, a1); }
        3 => { let a0 = g.color(); g.call("ConditionalFormat3ColorScale::set_minimum_color"); *x = x.clone().set_minimum_color(a0); }
        4 => { let a0 = g.color(); g.call("ConditionalFormat3ColorScale::set_midpoint_color"); *x = x.clone().set_midpoint_color(a0); }
        _ => { let a0 = g.color(); g.call("ConditionalFormat3ColorScale::set_maximum_color"); *x = x.clone().set_maximum_color(a0); }
    }
}

pub fn g_conditional_format_average(g: &mut G) -> ConditionalFormatAverage {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatAverage::new"); ConditionalFormatAverage::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_average(g, &mut x); });
    x
}

pub fn m_conditional_format_average(g: &mut G, x: &mut ConditionalFormatAverage) {
    match g.below(2) {
        0 => { let a0 = g_conditional_format_average_rule(g); g.call("ConditionalFormatAverage::set_rule"); *x = x.clone().set_rule(a0); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatAverage::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_blank(g: &mut G) -> ConditionalFormatBlank {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatBlank::new"); ConditionalFormatBlank::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_blank(g, &mut x); });
    x
}

pub fn m_conditional_format_blank(g: &mut G, x: &mut ConditionalFormatBlank) {
    match g.below(2) {
        0 => {  g.call("ConditionalFormatBlank::invert"); *x = x.clone().invert(); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatBlank::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_cell(g: &mut G) -> ConditionalFormatCell {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatCell::new"); ConditionalFormatCell::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_cell(g, &mut x); });
    x
}

pub fn m_conditional_format_cell(g: &mut G, x: &mut ConditionalFormatCell) {
    match g.below(4) {
        0 => { let a0 = g.cell_rule(); g.call("ConditionalFormatCell::set_rule"); *x = x.clone().set_rule(a0); }
        1 => { let a0 = g_format(g); g.call("ConditionalFormatCell::set_format"); *x = x.clone().set_format(a0); }
        2 => { let a0 = g.string(1); g.call("ConditionalFormatCell::set_multi_range"); *x = x.clone().set_multi_range(a0); }
        _ => { let a0 = g.bool(); g.call("ConditionalFormatCell::set_stop_if_true"); *x = x.clone().set_stop_if_true(a0); }
    }
}

pub fn g_conditional_format_custom_icon(g: &mut G) -> ConditionalFormatCustomIcon {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatCustomIcon::new"); ConditionalFormatCustomIcon::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_custom_icon(g, &mut x); });
    x
}

pub fn m_conditional_format_custom_icon(g: &mut G, x: &mut ConditionalFormatCustomIcon) {
    match g.below(4) {
        0 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormatCustomIcon::set_rule"); *x = x.clone().set_rule(a0, a1); }
        1 => { let a0 = g_conditional_format_icon_type(g); let a1 = g.u8(); g.call("ConditionalFormatCustomIcon::set_icon_type"); *x = x.clone().set_icon_type(a0, a1); }
        2 => { let a0 = g.bool(); g.call("ConditionalFormatCustomIcon::set_no_icon"); *x = x.clone().set_no_icon(a0); }
        _ => { let a0 = g.bool(); g.call("ConditionalFormatCustomIcon::set_greater_than"); *x = x.clone().set_greater_than(a0); }
    }
}

pub fn g_conditional_format_data_bar(g: &mut G) -> ConditionalFormatDataBar {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatDataBar::new"); ConditionalFormatDataBar::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_data_bar(g, &mut x); });
    x
}

pub fn m_conditional_format_data_bar(g: &mut G, x: &mut ConditionalFormatDataBar) {
    match g.below(12) {
        0 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormatDataBar::set_minimum"); *x = x.clone().set_minimum(a0, a1); }
        1 => { let a0 = g_conditional_format_type(g); let a1 = g.cf_value(); g.call("ConditionalFormatDataBar::set_maximum"); *x = x.clone().set_maximum(a0, a1); }
        2 => { let a0 = g.color(); g.call("ConditionalFormatDataBar::set_fill_color"); *x = x.clone().set_fill_color(a0); }
        3 => { let a0 = g.color(); g.call("ConditionalFormatDataBar::set_border_color"); *x = x.clone().set_border_color(a0); }
        4 => { let a0 = g.color(); g.call("ConditionalFormatDataBar::set_negative_fill_color"); *x = x.clone().set_negative_fill_color(a0); }
        5 => { let a0 = g.color(); g.call("ConditionalFormatDataBar::set_negative_border_color"); *x = x.clone().set_negative_border_color(a0); }
        6 => { let a0 = g.bool(); g.call("ConditionalFormatDataBar::set_solid_fill"); *x = x.clone().set_solid_fill(a0); }
        7 => { let a0 = g.bool(); g.call("ConditionalFormatDataBar::set_border_off"); *x = x.clone().set_border_off(a0); }
        8 => { let a0 = g_conditional_format_data_bar_direction(g); g.call("ConditionalFormatDataBar::set_direction"); *x = x.clone().set_direction(a0); }
        9 => { let a0 = g.bool(); g.call("ConditionalFormatDataBar::set_bar_only"); *x = x.clone().set_bar_only(a0); }
        10 => { let a0 = g_conditional_format_data_bar_axis_position(g); g.call("ConditionalFormatDataBar::set_axis_position"); *x = x.clone().set_axis_position(a0); }
        _ => { let a0 = g.color(); g.call("ConditionalFormatDataBar::set_axis_color"); *x = x.clone().set_axis_color(a0); }
    }
}

pub fn g_conditional_format_date(g: &mut G) -> ConditionalFormatDate {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatDate::new"); ConditionalFormatDate::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_date(g, &mut x); });
    x
}

pub fn m_conditional_format_date(g: &mut G, x: &mut ConditionalFormatDate) {
    match g.below(2) {
        0 => { let a0 = g_conditional_format_date_rule(g); g.call("ConditionalFormatDate::set_rule"); *x = x.clone().set_rule(a0); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatDate::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_duplicate(g: &mut G) -> ConditionalFormatDuplicate {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatDuplicate::new"); ConditionalFormatDuplicate::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_duplicate(g, &mut x); });
    x
}

pub fn m_conditional_format_duplicate(g: &mut G, x: &mut ConditionalFormatDuplicate) {
    match g.below(2) {
        0 => {  g.call("ConditionalFormatDuplicate::invert"); *x = x.clone().invert(); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatDuplicate::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_error(g: &mut G) -> ConditionalFormatError {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatError::new"); ConditionalFormatError::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_error(g, &mut x); });
    x
}

pub fn m_conditional_format_error(g: &mut G, x: &mut ConditionalFormatError) {
    match g.below(2) {
        0 => {  g.call("ConditionalFormatError::invert"); *x = x.clone().invert(); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatError::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_formula(g: &mut G) -> ConditionalFormatFormula {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatFormula::new"); ConditionalFormatFormula::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_formula(g, &mut x); });
    x
}

pub fn m_conditional_format_formula(g: &mut G, x: &mut ConditionalFormatFormula) {
    match g.below(2) {
        0 => { let a0 = g_formula(g); g.call("ConditionalFormatFormula::set_rule"); *x = x.clone().set_rule(a0); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatFormula::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_icon_set(g: &mut G) -> ConditionalFormatIconSet {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatIconSet::new"); ConditionalFormatIconSet::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_icon_set(g, &mut x); });
    x
}

pub fn m_conditional_format_icon_set(g: &mut G, x: &mut ConditionalFormatIconSet) {
    match g.below(4) {
        0 => { let a0 = g_conditional_format_icon_type(g); g.call("ConditionalFormatIconSet::set_icon_type"); *x = x.clone().set_icon_type(a0); }
        1 => { let a0 = g.bool(); g.call("ConditionalFormatIconSet::reverse_icons"); *x = x.clone().reverse_icons(a0); }
        2 => { let a0 = g.bool(); g.call("ConditionalFormatIconSet::show_icons_only"); *x = x.clone().show_icons_only(a0); }
        _ => { let a0 = g.list(g_conditional_format_custom_icon); g.call("ConditionalFormatIconSet::set_icons"); *x = x.clone().set_icons(&a0); }
    }
}

pub fn g_conditional_format_text(g: &mut G) -> ConditionalFormatText {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatText::new"); ConditionalFormatText::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_text(g, &mut x); });
    x
}

pub fn m_conditional_format_text(g: &mut G, x: &mut ConditionalFormatText) {
    match g.below(2) {
        0 => { let a0 = g_conditional_format_text_rule(g); g.call("ConditionalFormatText::set_rule"); *x = x.clone().set_rule(a0); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatText::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_conditional_format_top(g: &mut G) -> ConditionalFormatTop {
    let mut x = match g.below(1) {
        _ => {  g.call("ConditionalFormatTop::new"); ConditionalFormatTop::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_conditional_format_top(g, &mut x); });
    x
}

pub fn m_conditional_format_top(g: &mut G, x: &mut ConditionalFormatTop) {
    match g.below(2) {
        0 => { let a0 = g_conditional_format_top_rule(g); g.call("ConditionalFormatTop::set_rule"); *x = x.clone().set_rule(a0); }
        _ => { let a0 = g_format(g); g.call("ConditionalFormatTop::set_format"); *x = x.clone().set_format(a0); }
    }
}

pub fn g_data_validation(g: &mut G) -> DataValidation {
    let mut x = match g.below(1) {
        _ => {  g.call("DataValidation::new"); DataValidation::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_data_validation(g, &mut x); });
    x
}

pub fn m_data_validation(g: &mut G, x: &mut DataValidation) {
    match g.below(24) {
        0 => { let a0 = g.dv_rule(|g| g.i32()); g.call("DataValidation::allow_whole_number"); *x = x.clone().allow_whole_number(a0); }
        1 => { let a0 = g.dv_rule(g_formula); g.call("DataValidation::allow_whole_number_formula"); *x = x.clone().allow_whole_number_formula(a0); }
        2 => { let a0 = g.dv_rule(|g| g.f64()); g.call("DataValidation::allow_decimal_number"); *x = x.clone().allow_decimal_number(a0); }
        3 => { let a0 = g.dv_rule(g_formula); g.call("DataValidation::allow_decimal_number_formula"); *x = x.clone().allow_decimal_number_formula(a0); }
        4 => { let a0 = g.list(|g| g.string(0)); g.call("DataValidation::allow_list_strings"); if let Ok(y) = x.clone().allow_list_strings(&a0) { *x = y; } }
        5 => { let a0 = g_formula(g); g.call("DataValidation::allow_list_formula"); *x = x.clone().allow_list_formula(a0); }
        6 => { let a0 = g.dv_rule(|g| g.date()); g.call("DataValidation::allow_date"); *x = x.clone().allow_date(a0); }
        7 => { let a0 = g.dv_rule(g_formula); g.call("DataValidation::allow_date_formula"); *x = x.clone().allow_date_formula(a0); }
        8 => { let a0 = g.dv_rule(|g| g.date()); g.call("DataValidation::allow_time"); *x = x.clone().allow_time(a0); }
        9 => { let a0 = g.dv_rule(g_formula); g.call("DataValidation::allow_time_formula"); *x = x.clone().allow_time_formula(a0); }
        10 => { let a0 = g.dv_rule(|g| g.u32()); g.call("DataValidation::allow_text_length"); *x = x.clone().allow_text_length(a0); }
        11 => { let a0 = g.dv_rule(g_formula); g.call("DataValidation::allow_text_length_formula"); *x = x.clone().allow_text_length_formula(a0); }
        12 => { let a0 = g_formula(g); g.call("DataValidation::allow_custom"); *x = x.clone().allow_custom(a0); }
        13 => {  g.call("DataValidation::allow_any_value"); *x = x.clone().allow_any_value(); }
        14 => { let a0 = g.bool(); g.call("DataValidation::ignore_blank"); *x = x.clone().ignore_blank(a0); }
        15 => { let a0 = g.bool(); g.call("DataValidation::show_dropdown"); *x = x.clone().show_dropdown(a0); }
        16 => { let a0 = g.bool(); g.call("DataValidation::show_input_message"); *x = x.clone().show_input_message(a0); }
        17 => { let a0 = g.string(0); g.call("DataValidation::set_input_title"); if let Ok(y) = x.clone().set_input_title(a0) { *x = y; } }
        18 => { let a0 = g.string(0); g.call("DataValidation::set_input_message"); if let Ok(y) = x.clone().set_input_message(a0) { *x = y; } }
        19 => { let a0 = g.bool(); g.call("DataValidation::show_error_message"); *x = x.clone().show_error_message(a0); }
        20 => { let a0 = g.string(0); g.call("DataValidation::set_error_title"); if let Ok(y) = x.clone().set_error_title(a0) { *x = y; } }
        21 => { let a0 = g.string(0); g.call("DataValidation::set_error_message"); if let Ok(y) = x.clone().set_error_message(a0) { *x = y; } }
        22 => { let a0 = g_data_validation_error_style(g); g.call("DataValidation::set_error_style"); *x = x.clone().set_error_style(a0); }
        _ => { let a0 = g.string(1); g.call("DataValidation::set_multi_range"); *x = x.clone().set_multi_range(a0); }
    }
}

pub fn g_doc_properties(g: &mut G) -> DocProperties {
    let mut x = match g.below(1) {
        _ => {  g.call("DocProperties::new"); DocProperties::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_doc_properties(g, &mut x); });
    x
}

pub fn m_doc_properties(g: &mut G, x: &mut DocProperties) {
    match g.below(12) {
        0 => { let a0 = g.string(0); g.call("DocProperties::set_title"); *x = x.clone().set_title(a0); }
        1 => { let a0 = g.string(0); g.call("DocProperties::set_subject"); *x = x.clone().set_subject(a0); }
        2 => { let a0 = g.string(0); g.call("DocProperties::set_manager"); *x = x.clone().set_manager(a0); }
        3 => { let a0 = g.string(0); g.call("DocProperties::set_company"); *x = x.clone().set_company(a0); }
        4 => { let a0 = g.string(0); g.call("DocProperties::set_category"); *x = x.clone().set_category(a0); }
        5 => { let a0 = g.string(0); g.call("DocProperties::set_author"); *x = x.clone().set_author(a0); }
        6 => { let a0 = g.string(0); g.call("DocProperties::set_keywords"); *x = x.clone().set_keywords(a0); }
        7 => { let a0 = g.string(0); g.call("DocProperties::set_comment"); *x = x.clone().set_comment(a0); }
        8 => { let a0 = g.string(0); g.call("DocProperties::set_status"); *x = x.clone().set_status(a0); }
        9 => { let a0 = g.string(4); g.call("DocProperties::set_hyperlink_base"); *x = x.clone().set_hyperlink_base(a0); }
        10 => { let a0 = g.date(); g.call("DocProperties::set_creation_datetime"); *x = x.clone().set_creation_datetime(&a0); }
        _ => { let a0 = g.string(3); let a1 = g.string(0); g.call("DocProperties::set_custom_property"); *x = x.clone().set_custom_property(a0, a1.as_str()); }
    }
}

pub fn g_excel_date_time(g: &mut G) -> ExcelDateTime {
    let mut x = g.date();
    if g.one_in(18) { let a0 = g.string(0); g.call("ExcelDateTime::parse_from_str"); if let Ok(y) = ExcelDateTime::parse_from_str(&a0) { x = y; } }
    if g.one_in(18) { let a0 = g.u16(); let a1 = g.u8(); let a2 = g.u8(); g.call("ExcelDateTime::from_ymd"); if let Ok(y) = ExcelDateTime::from_ymd(a0, a1, a2) { x = y; } }
    if g.one_in(18) { let a0 = g.u16(); let a1 = g.u8(); let a2 = g.f64(); g.call("ExcelDateTime::from_hms"); if let Ok(y) = ExcelDateTime::from_hms(a0, a1, a2) { x = y; } }
    if g.one_in(18) { let a0 = g.u16(); let a1 = g.u8(); let a2 = g.u8(); let a3 = g.u16(); g.call("ExcelDateTime::from_hms_milli"); if let Ok(y) = ExcelDateTime::from_hms_milli(a0, a1, a2, a3) { x = y; } }
    if g.one_in(18) { let a0 = g.f64(); g.call("ExcelDateTime::from_serial_datetime"); if let Ok(y) = ExcelDateTime::from_serial_datetime(a0) { x = y; } }
    if g.one_in(18) { let a0 = g.i64(); g.call("ExcelDateTime::from_timestamp"); if let Ok(y) = ExcelDateTime::from_timestamp(a0) { x = y; } }
    g.deeper(|g, n| for _ in 0..n { m_excel_date_time(g, &mut x); });
    x
}

pub fn m_excel_date_time(g: &mut G, x: &mut ExcelDateTime) {
    match g.below(3) {
        0 => { let a0 = g.u16(); let a1 = g.u8(); let a2 = g.f64(); g.call("ExcelDateTime::and_hms"); if let Ok(y) = x.clone().and_hms(a0, a1, a2) { *x = y; } }
        1 => { let a0 = g.u16(); let a1 = g.u8(); let a2 = g.u8(); let a3 = g.u16(); g.call("ExcelDateTime::and_hms_milli"); if let Ok(y) = x.clone().and_hms_milli(a0, a1, a2, a3) { *x = y; } }
        _ => {  g.call("ExcelDateTime::to_excel"); let _ = x.to_excel(); }
    }
}

pub fn g_filter_condition(g: &mut G) -> FilterCondition {
    let mut x = match g.below(1) {
        _ => {  g.call("FilterCondition::new"); FilterCondition::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_filter_condition(g, &mut x); });
    x
}

pub fn m_filter_condition(g: &mut G, x: &mut FilterCondition) {
    match g.below(4) {
        0 => { let a0 = g.string(0); g.call("FilterCondition::add_list_filter"); *x = x.clone().add_list_filter(a0.as_str()); }
        1 => {  g.call("FilterCondition::add_list_blanks_filter"); *x = x.clone().add_list_blanks_filter(); }
        2 => { let a0 = g_filter_criteria(g); let a1 = g.string(0); g.call("FilterCondition::add_custom_filter"); *x = x.clone().add_custom_filter(a0, a1.as_str()); }
        _ => {  g.call("FilterCondition::add_custom_boolean_or"); *x = x.clone().add_custom_boolean_or(); }
    }
}

pub fn g_format(g: &mut G) -> Format {
    let mut x = match g.below(1) {
        _ => {  g.call("Format::new"); Format::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_format(g, &mut x); });
    x
}

pub fn m_format(g: &mut G, x: &mut Format) {
    match g.below(51) {
        0 => { let a0 = g_format(g); g.call("Format::merge"); let _ = x.merge(&a0); }
        1 => { let a0 = g.string(5); g.call("Format::set_num_format"); *x = x.clone().set_num_format(a0); }
        2 => { let a0 = g.u8(); g.call("Format::set_num_format_index"); *x = x.clone().set_num_format_index(a0); }
        3 => {  g.call("Format::set_bold"); *x = x.clone().set_bold(); }
        4 => {  g.call("Format::set_italic"); *x = x.clone().set_italic(); }
        5 => { let a0 = g.color(); g.call("Format::set_font_color"); *x = x.clone().set_font_color(a0); }
        6 => { let a0 = g.string(3); g.call("Format::set_font_name"); *x = x.clone().set_font_name(a0); }
        7 => { let a0 = g.f64(); g.call("Format::set_font_size"); *x = x.clone().set_font_size(a0); }
        8 => { let a0 = g.string(0); g.call("Format::set_font_scheme"); *x = x.clone().set_font_scheme(a0); }
        9 => { let a0 = g.u8(); g.call("Format::set_font_family"); *x = x.clone().set_font_family(a0); }
        10 => { let a0 = g.u8(); g.call("Format::set_font_charset"); *x = x.clone().set_font_charset(a0); }
        11 => { let a0 = g_format_underline(g); g.call("Format::set_underline"); *x = x.clone().set_underline(a0); }
        12 => {  g.call("Format::set_font_strikethrough"); *x = x.clone().set_font_strikethrough(); }
        13 => { let a0 = g_format_script(g); g.call("Format::set_font_script"); *x = x.clone().set_font_script(a0); }
        14 => { let a0 = g_format_align(g); g.call("Format::set_align"); *x = x.clone().set_align(a0); }
        15 => {  g.call("Format::set_text_wrap"); *x = x.clone().set_text_wrap(); }
        16 => { let a0 = g.u8(); g.call("Format::set_indent"); *x = x.clone().set_indent(a0); }
        17 => { let a0 = g.i16(); g.call("Format::set_rotation"); *x = x.clone().set_rotation(a0); }
        18 => { let a0 = g.u8(); g.call("Format::set_reading_direction"); *x = x.clone().set_reading_direction(a0); }
        19 => {  g.call("Format::set_shrink"); *x = x.clone().set_shrink(); }
        20 => { let a0 = g_format_pattern(g); g.call("Format::set_pattern"); *x = x.clone().set_pattern(a0); }
        21 => { let a0 = g.color(); g.call("Format::set_background_color"); *x = x.clone().set_background_color(a0); }
        22 => { let a0 = g.color(); g.call("Format::set_foreground_color"); *x = x.clone().set_foreground_color(a0); }
        23 => { let a0 = g_format_border(g); g.call("Format::set_border"); *x = x.clone().set_border(a0); }
        24 => { let a0 = g.color(); g.call("Format::set_border_color"); *x = x.clone().set_border_color(a0); }
        25 => { let a0 = g_format_border(g); g.call("Format::set_border_top"); *x = x.clone().set_border_top(a0); }
        26 => { let a0 = g.color(); g.call("Format::set_border_top_color"); *x = x.clone().set_border_top_color(a0); }
        27 => { let a0 = g_format_border(g); g.call("Format::set_border_bottom"); *x = x.clone().set_border_bottom(a0); }
        28 => { let a0 = g.color(); g.call("Format::set_border_bottom_color"); *x = x.clone().set_border_bottom_color(a0); }
        29 => { let a0 = g_format_border(g); g.call("Format::set_border_left"); *x = x.clone().set_border_left(a0); }
        30 => { let a0 = g.color(); g.call("Format::set_border_left_color"); *x = x.clone().set_border_left_color(a0); }
        31 => { let a0 = g_format_border(g); g.call("Format::set_border_right"); *x = x.clone().set_border_right(a0); }
        32 => { let a0 = g.color(); g.call("Format::set_border_right_color"); *x = x.clone().set_border_right_color(a0); }
        33 => { let a0 = g_format_border(g); g.call("Format::set_border_diagonal"); *x = x.clone().set_border_diagonal(a0); }
        34 => { let a0 = g.color(); g.call("Format::set_border_diagonal_color"); *x = x.clone().set_border_diagonal_color(a0); }
        35 => { let a0 = g_format_diagonal_border(g); g.call("Format::set_border_diagonal_type"); *x = x.clone().set_border_diagonal_type(a0); }
        36 => {  g.call("Format::set_hyperlink"); *x = x.clone().set_hyperlink(); }
        37 => {  g.call("Format::set_unlocked"); *x = x.clone().set_unlocked(); }
        38 => {  g.call("Format::set_hidden"); *x = x.clone().set_hidden(); }
        39 => {  g.call("Format::set_quote_prefix"); *x = x.clone().set_quote_prefix(); }
        40 => {  g.call("Format::set_checkbox"); *x = x.clone().set_checkbox(); }
        41 => {  g.call("Format::unset_bold"); *x = x.clone().unset_bold(); }
        42 => {  g.call("Format::unset_italic"); *x = x.clone().unset_italic(); }
        43 => {  g.call("Format::unset_font_strikethrough"); *x = x.clone().unset_font_strikethrough(); }
        44 => {  g.call("Format::unset_text_wrap"); *x = x.clone().unset_text_wrap(); }
        45 => {  g.call("Format::unset_shrink"); *x = x.clone().unset_shrink(); }
        46 => {  g.call("Format::set_locked"); *x = x.clone().set_locked(); }
        47 => {  g.call("Format::unset_hidden"); *x = x.clone().unset_hidden(); }
        48 => {  g.call("Format::unset_hyperlink_style"); *x = x.clone().unset_hyperlink_style(); }
        49 => {  g.call("Format::unset_quote_prefix"); *x = x.clone().unset_quote_prefix(); }
        _ => {  g.call("Format::unset_checkbox"); *x = x.clone().unset_checkbox(); }
    }
}

pub fn g_formula(g: &mut G) -> Formula {
    let mut x = match g.below(1) {
        _ => { let a0 = g.string(2); g.call("Formula::new"); Formula::new(a0) }
    };
    g.deeper(|g, n| for _ in 0..n { m_formula(g, &mut x); });
    x
}

pub fn m_formula(g: &mut G, x: &mut Formula) {
    match g.below(1) {
        _ => { let a0 = g.string(0); g.call("Formula::set_result"); *x = x.clone().set_result(a0); }
    }
}

pub fn g_image(g: &mut G) -> Image {
    let mut x = g.image();
    if g.one_in(6) { let a0 = g.path(); g.call("Image::new"); if let Ok(y) = Image::new(a0) { x = y; } }
    if g.one_in(6) { let a0 = g.bytes(); g.call("Image::new_from_buffer"); if let Ok(y) = Image::new_from_buffer(&a0) { x = y; } }
    g.deeper(|g, n| for _ in 0..n { m_image(g, &mut x); });
    x
}

pub fn m_image(g: &mut G, x: &mut Image) {
    match g.below(13) {
        0 => { let a0 = g.u32(); g.call("Image::set_width"); *x = x.clone().set_width(a0); }
        1 => { let a0 = g.u32(); g.call("Image::set_height"); *x = x.clone().set_height(a0); }
        2 => { let a0 = g.f64(); g.call("Image::set_scale_height"); *x = x.clone().set_scale_height(a0); }
        3 => { let a0 = g.f64(); g.call("Image::set_scale_width"); *x = x.clone().set_scale_width(a0); }
        4 => { let a0 = g.f64(); let a1 = g.f64(); let a2 = g.bool(); g.call("Image::set_scale_to_size"); *x = x.clone().set_scale_to_size(a0, a1, a2); }
        5 => { let a0 = g.string(0); g.call("Image::set_alt_text"); *x = x.clone().set_alt_text(a0); }
        6 => { let a0 = g.bool(); g.call("Image::set_decorative"); *x = x.clone().set_decorative(a0); }
        7 => { let a0 = g_object_movement(g); g.call("Image::set_object_movement"); *x = x.clone().set_object_movement(a0); }
        8 => { let a0 = g_url(g); g.call("Image::set_url"); if let Ok(y) = x.clone().set_url(a0) { *x = y; } }
        9 => {  g.call("Image::width"); let _ = x.width(); }
        10 => {  g.call("Image::height"); let _ = x.height(); }
        11 => {  g.call("Image::width_dpi"); let _ = x.width_dpi(); }
        _ => {  g.call("Image::height_dpi"); let _ = x.height_dpi(); }
    }
}

pub fn g_note(g: &mut G) -> Note {
    let mut x = match g.below(1) {
        _ => { let a0 = g.string(0); g.call("Note::new"); Note::new(a0) }
    };
    g.deeper(|g, n| for _ in 0..n { m_note(g, &mut x); });
    x
}

pub fn m_note(g: &mut G, x: &mut Note) {
    match g.below(11) {
        0 => { let a0 = g.string(3); g.call("Note::set_author"); *x = x.clone().set_author(a0); }
        1 => { let a0 = g.bool(); g.call("Note::add_author_prefix"); *x = x.clone().add_author_prefix(a0); }
        2 => { let a0 = g.string(0); g.call("Note::reset_text"); let _ = x.reset_text(a0); }
        3 => { let a0 = g.u32(); g.call("Note::set_width"); *x = x.clone().set_width(a0); }
        4 => { let a0 = g.u32(); g.call("Note::set_height"); *x = x.clone().set_height(a0); }
        5 => { let a0 = g.bool(); g.call("Note::set_visible"); *x = x.clone().set_visible(a0); }
        6 => { let a0 = g.color(); g.call("Note::set_background_color"); *x = x.clone().set_background_color(a0); }
        7 => { let a0 = g.string(3); g.call("Note::set_font_name"); *x = x.clone().set_font_name(a0); }
        8 => { let a0 = g.f64(); g.call("Note::set_font_size"); *x = x.clone().set_font_size(a0); }
        9 => { let a0 = g.string(0); g.call("Note::set_alt_text"); *x = x.clone().set_alt_text(a0); }
        _ => { let a0 = g_object_movement(g); g.call("Note::set_object_movement"); *x = x.clone().set_object_movement(a0); }
    }
}

pub fn g_protection_options(g: &mut G) -> ProtectionOptions {
    let mut x = match g.below(1) {
        _ => {  g.call("ProtectionOptions::new"); ProtectionOptions::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_protection_options(g, &mut x); });
    x
}

pub fn m_protection_options(g: &mut G, x: &mut ProtectionOptions) {
}

pub fn g_shape(g: &mut G) -> Shape {
    let mut x = match g.below(1) {
        _ => {  g.call("Shape::textbox"); Shape::textbox() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape(g, &mut x); });
    x
}

pub fn m_shape(g: &mut G, x: &mut Shape) {
    match g.below(10) {
        0 => { let a0 = g.string(0); g.call("Shape::set_text"); *x = x.clone().set_text(a0); }
        1 => { let a0 = g_formula(g); g.call("Shape::set_text_link"); *x = x.clone().set_text_link(a0); }
        2 => { let a0 = g.u32(); g.call("Shape::set_width"); *x = x.clone().set_width(a0); }
        3 => { let a0 = g.u32(); g.call("Shape::set_height"); *x = x.clone().set_height(a0); }
        4 => { let a0 = g_shape_format(g); g.call("Shape::set_format"); *x = x.clone().set_format(&a0); }
        5 => { let a0 = g_shape_font(g); g.call("Shape::set_font"); *x = x.clone().set_font(&a0); }
        6 => { let a0 = g_shape_text(g); g.call("Shape::set_text_options"); *x = x.clone().set_text_options(&a0); }
        7 => { let a0 = g_url(g); g.call("Shape::set_url"); if let Ok(y) = x.clone().set_url(a0) { *x = y; } }
        8 => { let a0 = g.string(0); g.call("Shape::set_alt_text"); *x = x.clone().set_alt_text(a0); }
        _ => { let a0 = g_object_movement(g); g.call("Shape::set_object_movement"); *x = x.clone().set_object_movement(a0); }
    }
}

pub fn g_shape_font(g: &mut G) -> ShapeFont {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapeFont::new"); ShapeFont::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_font(g, &mut x); });
    x
}

pub fn m_shape_font(g: &mut G, x: &mut ShapeFont) {
    match g.below(11) {
        0 => {  g.call("ShapeFont::set_bold"); *x = x.clone().set_bold(); }
        1 => {  g.call("ShapeFont::set_italic"); *x = x.clone().set_italic(); }
        2 => { let a0 = g.color(); g.call("ShapeFont::set_color"); *x = x.clone().set_color(a0); }
        3 => { let a0 = g.string(3); g.call("ShapeFont::set_name"); *x = x.clone().set_name(a0); }
        4 => { let a0 = g.f64(); g.call("ShapeFont::set_size"); *x = x.clone().set_size(a0); }
        5 => {  g.call("ShapeFont::set_underline"); *x = x.clone().set_underline(); }
        6 => {  g.call("ShapeFont::set_strikethrough"); *x = x.clone().set_strikethrough(); }
        7 => {  g.call("ShapeFont::unset_bold"); *x = x.clone().unset_bold(); }
        8 => { let a0 = g.bool(); g.call("ShapeFont::set_right_to_left"); *x = x.clone().set_right_to_left(a0); }
        9 => { let a0 = g.u8(); g.call("ShapeFont::set_pitch_family"); *x = x.clone().set_pitch_family(a0); }
        _ => { let a0 = g.u8(); g.call("ShapeFont::set_character_set"); *x = x.clone().set_character_set(a0); }
    }
}

pub fn g_shape_format(g: &mut G) -> ShapeFormat {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapeFormat::new"); ShapeFormat::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_format(g, &mut x); });
    x
}

pub fn m_shape_format(g: &mut G, x: &mut ShapeFormat) {
    match g.below(6) {
        0 => { let a0 = g_shape_line(g); g.call("ShapeFormat::set_line"); *x = x.clone().set_line(&a0); }
        1 => {  g.call("ShapeFormat::set_no_line"); *x = x.clone().set_no_line(); }
        2 => { let a0 = g_shape_solid_fill(g); g.call("ShapeFormat::set_solid_fill"); *x = x.clone().set_solid_fill(&a0); }
        3 => {  g.call("ShapeFormat::set_no_fill"); *x = x.clone().set_no_fill(); }
        4 => { let a0 = g_shape_pattern_fill(g); g.call("ShapeFormat::set_pattern_fill"); *x = x.clone().set_pattern_fill(&a0); }
        _ => { let a0 = g_shape_gradient_fill(g); g.call("ShapeFormat::set_gradient_fill"); *x = x.clone().set_gradient_fill(&a0); }
    }
}

pub fn g_shape_gradient_fill(g: &mut G) -> ShapeGradientFill {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapeGradientFill::new"); ShapeGradientFill::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_gradient_fill(g, &mut x); });
    x
}

pub fn m_shape_gradient_fill(g: &mut G, x: &mut ShapeGradientFill) {
    match g.below(3) {
        0 => { let a0 = g_shape_gradient_fill_type(g); g.call("ShapeGradientFill::set_type"); *x = x.clone().set_type(a0); }
        1 => { let a0 = g.list(g_shape_gradient_stop); g.call("ShapeGradientFill::set_gradient_stops"); *x = x.clone().set_gradient_stops(&a0); }
        _ => { let a0 = g.u16(); g.call("ShapeGradientFill::set_angle"); *x = x.clone().set_angle(a0); }
    }
}

pub fn g_shape_gradient_stop(g: &mut G) -> ShapeGradientStop {
    let mut x = match g.below(1) {
        _ => { let a0 = g.color(); let a1 = g.u8(); g.call("ShapeGradientStop::new"); ShapeGradientStop::new(a0, a1) }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_gradient_stop(g, &mut x); });
    x
}

pub fn m_shape_gradient_stop(g: &mut G, x: &mut ShapeGradientStop) {
}

pub fn g_shape_line(g: &mut G) -> ShapeLine {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapeLine::new"); ShapeLine::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_line(g, &mut x); });
    x
}

pub fn m_shape_line(g: &mut G, x: &mut ShapeLine) {
    match g.below(5) {
        0 => { let a0 = g.color(); g.call("ShapeLine::set_color"); *x = x.clone().set_color(a0); }
        1 => { let a0 = g.f64(); g.call("ShapeLine::set_width"); *x = x.clone().set_width(a0); }
        2 => { let a0 = g_shape_line_dash_type(g); g.call("ShapeLine::set_dash_type"); *x = x.clone().set_dash_type(a0); }
        3 => { let a0 = g.u8(); g.call("ShapeLine::set_transparency"); *x = x.clone().set_transparency(a0); }
        _ => { let a0 = g.bool(); g.call("ShapeLine::set_hidden"); *x = x.clone().set_hidden(a0); }
    }
}

pub fn g_shape_pattern_fill(g: &mut G) -> ShapePatternFill {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapePatternFill::new"); ShapePatternFill::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_pattern_fill(g, &mut x); });
    x
}

pub fn m_shape_pattern_fill(g: &mut G, x: &mut ShapePatternFill) {
    match g.below(3) {
        0 => { let a0 = g_shape_pattern_fill_type(g); g.call("ShapePatternFill::set_pattern"); *x = x.clone().set_pattern(a0); }
        1 => { let a0 = g.color(); g.call("ShapePatternFill::set_background_color"); *x = x.clone().set_background_color(a0); }
        _ => { let a0 = g.color(); g.call("ShapePatternFill::set_foreground_color"); *x = x.clone().set_foreground_color(a0); }
    }
}

pub fn g_shape_solid_fill(g: &mut G) -> ShapeSolidFill {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapeSolidFill::new"); ShapeSolidFill::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_solid_fill(g, &mut x); });
    x
}

pub fn m_shape_solid_fill(g: &mut G, x: &mut ShapeSolidFill) {
    match g.below(2) {
        0 => { let a0 = g.color(); g.call("ShapeSolidFill::set_color"); *x = x.clone().set_color(a0); }
        _ => { let a0 = g.u8(); g.call("ShapeSolidFill::set_transparency"); *x = x.clone().set_transparency(a0); }
    }
}

pub fn g_shape_text(g: &mut G) -> ShapeText {
    let mut x = match g.below(1) {
        _ => {  g.call("ShapeText::new"); ShapeText::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_shape_text(g, &mut x); });
    x
}

pub fn m_shape_text(g: &mut G, x: &mut ShapeText) {
    match g.below(3) {
        0 => { let a0 = g_shape_text_horizontal_alignment(g); g.call("ShapeText::set_horizontal_alignment"); *x = x.clone().set_horizontal_alignment(a0); }
        1 => { let a0 = g_shape_text_vertical_alignment(g); g.call("ShapeText::set_vertical_alignment"); *x = x.clone().set_vertical_alignment(a0); }
        _ => { let a0 = g_shape_text_direction(g); g.call("ShapeText::set_direction"); *x = x.clone().set_direction(a0); }
    }
}

pub fn g_sparkline(g: &mut G) -> Sparkline {
    let mut x = match g.below(1) {
        _ => {  g.call("Sparkline::new"); Sparkline::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_sparkline(g, &mut x); });
    x
}

pub fn m_sparkline(g: &mut G, x: &mut Sparkline) {
    match g.below(27) {
        0 => { let a0 = g.range(); g.call("Sparkline::set_range"); *x = x.clone().set_range(a0.as_str()); }
        1 => { let a0 = g_sparkline_type(g); g.call("Sparkline::set_type"); *x = x.clone().set_type(a0); }
        2 => { let a0 = g.bool(); g.call("Sparkline::show_high_point"); *x = x.clone().show_high_point(a0); }
        3 => { let a0 = g.bool(); g.call("Sparkline::show_low_point"); *x = x.clone().show_low_point(a0); }
        4 => { let a0 = g.bool(); g.call("Sparkline::show_first_point"); *x = x.clone().show_first_point(a0); }
        5 => { let a0 = g.bool(); g.call("Sparkline::show_last_point"); *x = x.clone().show_last_point(a0); }
        6 => { let a0 = g.bool(); g.call("Sparkline::show_negative_points"); *x = x.clone().show_negative_points(a0); }
        7 => { let a0 = g.bool(); g.call("Sparkline::show_markers"); *x = x.clone().show_markers(a0); }
        8 => { let a0 = g.bool(); g.call("Sparkline::show_axis"); *x = x.clone().show_axis(a0); }
        9 => { let a0 = g.bool(); g.call("Sparkline::show_hidden_data"); *x = x.clone().show_hidden_data(a0); }
        10 => { let a0 = g_chart_empty_cells(g); g.call("Sparkline::show_empty_cells_as"); *x = x.clone().show_empty_cells_as(a0); }
        11 => { let a0 = g.bool(); g.call("Sparkline::set_right_to_left"); *x = x.clone().set_right_to_left(a0); }
        12 => { let a0 = g.color(); g.call("Sparkline::set_sparkline_color"); *x = x.clone().set_sparkline_color(a0); }
        13 => { let a0 = g.color(); g.call("Sparkline::set_high_point_color"); *x = x.clone().set_high_point_color(a0); }
        14 => { let a0 = g.color(); g.call("Sparkline::set_low_point_color"); *x = x.clone().set_low_point_color(a0); }
        15 => { let a0 = g.color(); g.call("Sparkline::set_first_point_color"); *x = x.clone().set_first_point_color(a0); }
        16 => { let a0 = g.color(); g.call("Sparkline::set_last_point_color"); *x = x.clone().set_last_point_color(a0); }
        17 => { let a0 = g.color(); g.call("Sparkline::set_negative_points_color"); *x = x.clone().set_negative_points_color(a0); }
        18 => { let a0 = g.color(); g.call("Sparkline::set_markers_color"); *x = x.clone().set_markers_color(a0); }
        19 => { let a0 = g.f64(); g.call("Sparkline::set_line_weight"); *x = x.clone().set_line_weight(a0); }
        20 => { let a0 = g.f64(); g.call("Sparkline::set_custom_max"); *x = x.clone().set_custom_max(a0); }
        21 => { let a0 = g.f64(); g.call("Sparkline::set_custom_min"); *x = x.clone().set_custom_min(a0); }
        22 => { let a0 = g.bool(); g.call("Sparkline::set_group_max"); *x = x.clone().set_group_max(a0); }
        23 => { let a0 = g.bool(); g.call("Sparkline::set_group_min"); *x = x.clone().set_group_min(a0); }
        24 => { let a0 = g.range(); g.call("Sparkline::set_date_range"); *x = x.clone().set_date_range(a0.as_str()); }
        25 => { let a0 = g.bool(); g.call("Sparkline::set_column_order"); *x = x.clone().set_column_order(a0); }
        _ => { let a0 = g.u8(); g.call("Sparkline::set_style"); *x = x.clone().set_style(a0); }
    }
}

pub fn g_table(g: &mut G) -> Table {
    let mut x = match g.below(1) {
        _ => {  g.call("Table::new"); Table::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_table(g, &mut x); });
    x
}

pub fn m_table(g: &mut G, x: &mut Table) {
    match g.below(10) {
        0 => { let a0 = g.bool(); g.call("Table::set_header_row"); *x = x.clone().set_header_row(a0); }
        1 => { let a0 = g.bool(); g.call("Table::set_total_row"); *x = x.clone().set_total_row(a0); }
        2 => { let a0 = g.bool(); g.call("Table::set_banded_rows"); *x = x.clone().set_banded_rows(a0); }
        3 => { let a0 = g.bool(); g.call("Table::set_banded_columns"); *x = x.clone().set_banded_columns(a0); }
        4 => { let a0 = g.bool(); g.call("Table::set_first_column"); *x = x.clone().set_first_column(a0); }
        5 => { let a0 = g.bool(); g.call("Table::set_last_column"); *x = x.clone().set_last_column(a0); }
        6 => { let a0 = g.bool(); g.call("Table::set_autofilter"); *x = x.clone().set_autofilter(a0); }
        7 => { let a0 = g.list(g_table_column); g.call("Table::set_columns"); *x = x.clone().set_columns(&a0); }
        8 => { let a0 = g.string(3); g.call("Table::set_name"); *x = x.clone().set_name(a0); }
        _ => { let a0 = g_table_style(g); g.call("Table::set_style"); *x = x.clone().set_style(a0); }
    }
}

pub fn g_table_column(g: &mut G) -> TableColumn {
    let mut x = match g.below(1) {
        _ => {  g.call("TableColumn::new"); TableColumn::new() }
    };
    g.deeper(|g, n| for _ in 0..n { m_table_column(g, &mut x); });
    x
}

pub fn m_table_column(g: &mut G, x: &mut TableColumn) {
    match g.below(6) {
        0 => { let a0 = g.string(0); g.call("TableColumn::set_header"); *x = x.clone().set_header(a0); }
        1 => { let a0 = g_table_function(g); g.call("TableColumn::set_total_function"); *x = x.clone().set_total_function(a0); }
        2 => { let a0 = g.string(0); g.call("TableColumn::set_total_label"); *x = x.clone().set_total_label(a0); }
        3 => { let a0 = g_formula(g); g.call("TableColumn::set_formula"); *x = x.clone().set_formula(a0); }
        4 => { let a0 = g_format(g); g.call("TableColumn::set_format"); *x = x.clone().set_format(a0); }
        _ => { let a0 = g_format(g); g.call("TableColumn::set_header_format"); *x = x.clone().set_header_format(a0); }
    }
}

pub fn g_url(g: &mut G) -> Url {
    let mut x = match g.below(1) {
        _ => { let a0 = g.string(4); g.call("Url::new"); Url::new(a0) }
    };
    g.deeper(|g, n| for _ in 0..n { m_url(g, &mut x); });
    x
}

pub fn m_url(g: &mut G, x: &mut Url) {
    match g.below(2) {
        0 => { let a0 = g.string(0); g.call("Url::set_text"); *x = x.clone().set_text(a0); }
        _ => { let a0 = g.string(0); g.call("Url::set_tip"); *x = x.clone().set_tip(a0); }
    }
}

pub fn m_workbook(g: &mut G, x: &mut Workbook) {
    match g.below(17) {
        0 => {  g.call("Workbook::add_worksheet"); let y = x.add_worksheet(); m_worksheet(g, y); }
        1 => {  g.call("Workbook::add_worksheet_with_constant_memory"); let y = x.add_worksheet_with_constant_memory(); m_worksheet(g, y); }
        2 => {  g.call("Workbook::add_worksheet_with_low_memory"); let y = x.add_worksheet_with_low_memory(); m_worksheet(g, y); }
        3 => { let a0 = g.path(); g.call("Workbook::set_tempdir"); let ok = x.set_tempdir(a0).is_ok(); g.result(ok); }
        4 => {  g.call("Workbook::add_chartsheet"); let y = x.add_chartsheet(); m_worksheet(g, y); }
        5 => { let a0 = g.usize(); g.call("Workbook::worksheet_from_index"); if let Ok(y) = x.worksheet_from_index(a0) { m_worksheet(g, y); } }
        6 => { let a0 = g.string(3); g.call("Workbook::worksheet_from_name"); if let Ok(y) = x.worksheet_from_name(&a0) { m_worksheet(g, y); } }
        7 => { let a0 = g.path(); g.call("Workbook::save"); let ok = x.save(a0).is_ok(); g.result(ok); }
        8 => {  g.call("Workbook::save_to_buffer"); let ok = x.save_to_buffer().is_ok(); g.result(ok); }
        9 => { let a0 = g.string(3); let a1 = g.string(2); g.call("Workbook::define_name"); let ok = x.define_name(a0, &a1).is_ok(); g.result(ok); }
        10 => { let a0 = g_doc_properties(g); g.call("Workbook::set_properties"); let _ = x.set_properties(&a0); }
        11 => { let a0 = g.path(); g.call("Workbook::add_vba_project"); let ok = x.add_vba_project(a0).is_ok(); g.result(ok); }
        12 => { let a0 = g.bool(); g.call("Workbook::use_zip_large_file"); let _ = x.use_zip_large_file(a0); }
        13 => { let a0 = g.path(); let a1 = g.path(); g.call("Workbook::add_vba_project_with_signature"); let ok = x.add_vba_project_with_signature(a0, a1).is_ok(); g.result(ok); }
        14 => { let a0 = g.string(3); g.call("Workbook::set_vba_name"); let ok = x.set_vba_name(a0).is_ok(); g.result(ok); }
        15 => {  g.call("Workbook::read_only_recommended"); let _ = x.read_only_recommended(); }
        _ => { crate::hostile::workbook_more(g, x); }
    }
}

pub fn m_worksheet(g: &mut G, x: &mut Worksheet) {
    match g.below(144) {
        0 => { let a0 = g.string(3); g.call("Worksheet::set_name"); let ok = x.set_name(a0).is_ok(); g.result(ok); }
        1 => {  g.call("Worksheet::name"); let _ = x.name(); }
        2 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.string(0); g.call("Worksheet::write"); let ok = x.write(a0, a1, a2).is_ok(); g.result(ok); }
        3 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.string(0); let a3 = g_format(g); g.call("Worksheet::write_with_format"); let ok = x.write_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        4 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.list(|g| g.string(0)); g.call("Worksheet::write_row"); let ok = x.write_row(a0, a1, a2).is_ok(); g.result(ok); }
        5 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.list(|g| g.string(0)); let a3 = g_format(g); g.call("Worksheet::write_row_with_format"); let ok = x.write_row_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        6 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.list(|g| g.string(0)); g.call("Worksheet::write_column"); let ok = x.write_column(a0, a1, a2).is_ok(); g.result(ok); }
        7 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.list(|g| g.string(0)); let a3 = g_format(g); g.call("Worksheet::write_column_with_format"); let ok = x.write_column_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        8 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.list(|g| g.list(|g| g.f64())); g.call("Worksheet::write_row_matrix"); let ok = x.write_row_matrix(a0, a1, a2).is_ok(); g.result(ok); }
        9 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.list(|g| g.list(|g| g.f64())); g.call("Worksheet::write_column_matrix"); let ok = x.write_column_matrix(a0, a1, a2).is_ok(); g.result(ok); }
        10 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.f64(); g.call("Worksheet::write_number"); let ok = x.write_number(a0, a1, a2).is_ok(); g.result(ok); }
        11 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.f64(); let a3 = g_format(g); g.call("Worksheet::write_number_with_format"); let ok = x.write_number_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        12 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.string(0); g.call("Worksheet::write_string"); let ok = x.write_string(a0, a1, a2).is_ok(); g.result(ok); }
        13 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.string(0); let a3 = g_format(g); g.call("Worksheet::write_string_with_format"); let ok = x.write_string_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        14 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_formula(g); g.call("Worksheet::write_formula"); let ok = x.write_formula(a0, a1, a2).is_ok(); g.result(ok); }
        15 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_formula(g); let a3 = g_format(g); g.call("Worksheet::write_formula_with_format"); let ok = x.write_formula_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        16 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_formula(g); g.call("Worksheet::write_array_formula"); let ok = x.write_array_formula(r0, c0, r1, c1, a4).is_ok(); g.result(ok); }
        17 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_formula(g); let a5 = g_format(g); g.call("Worksheet::write_array_formula_with_format"); let ok = x.write_array_formula_with_format(r0, c0, r1, c1, a4, &a5).is_ok(); g.result(ok); }
        18 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_formula(g); g.call("Worksheet::write_dynamic_array_formula"); let ok = x.write_dynamic_array_formula(r0, c0, r1, c1, a4).is_ok(); g.result(ok); }
        19 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_formula(g); let a5 = g_format(g); g.call("Worksheet::write_dynamic_array_formula_with_format"); let ok = x.write_dynamic_array_formula_with_format(r0, c0, r1, c1, a4, &a5).is_ok(); g.result(ok); }
        20 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_formula(g); g.call("Worksheet::write_dynamic_formula"); let ok = x.write_dynamic_formula(a0, a1, a2).is_ok(); g.result(ok); }
        21 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_formula(g); let a3 = g_format(g); g.call("Worksheet::write_dynamic_formula_with_format"); let ok = x.write_dynamic_formula_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        22 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_format(g); g.call("Worksheet::write_blank"); let ok = x.write_blank(a0, a1, &a2).is_ok(); g.result(ok); }
        23 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_url(g); g.call("Worksheet::write_url"); let ok = x.write_url(a0, a1, a2).is_ok(); g.result(ok); }
        24 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_url(g); let a3 = g.string(0); g.call("Worksheet::write_url_with_text"); let ok = x.write_url_with_text(a0, a1, a2, a3).is_ok(); g.result(ok); }
        25 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_url(g); let a3 = g_format(g); g.call("Worksheet::write_url_with_format"); let ok = x.write_url_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        26 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.date(); let a3 = g_format(g); g.call("Worksheet::write_datetime_with_format"); let ok = x.write_datetime_with_format(a0, a1, &a2, &a3).is_ok(); g.result(ok); }
        27 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.date(); g.call("Worksheet::write_datetime"); let ok = x.write_datetime(a0, a1, &a2).is_ok(); g.result(ok); }
        28 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.bool(); g.call("Worksheet::write_boolean"); let ok = x.write_boolean(a0, a1, a2).is_ok(); g.result(ok); }
        29 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.bool(); let a3 = g_format(g); g.call("Worksheet::write_boolean_with_format"); let ok = x.write_boolean_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        30 => { let (r0, c0, r1, c1) = g.small(); let a4 = g.string(0); let a5 = g_format(g); g.call("Worksheet::merge_range"); let ok = x.merge_range(r0, c0, r1, c1, &a4, &a5).is_ok(); g.result(ok); }
        31 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_image(g); g.call("Worksheet::insert_image"); let ok = x.insert_image(a0, a1, &a2).is_ok(); g.result(ok); }
        32 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_image(g); let a3 = g.u32(); let a4 = g.u32(); g.call("Worksheet::insert_image_with_offset"); let ok = x.insert_image_with_offset(a0, a1, &a2, a3, a4).is_ok(); g.result(ok); }
        33 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_image(g); g.call("Worksheet::embed_image"); let ok = x.embed_image(a0, a1, &a2).is_ok(); g.result(ok); }
        34 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_image(g); let a3 = g_format(g); g.call("Worksheet::embed_image_with_format"); let ok = x.embed_image_with_format(a0, a1, &a2, &a3).is_ok(); g.result(ok); }
        35 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_image(g); let a3 = g.bool(); g.call("Worksheet::insert_image_fit_to_cell"); let ok = x.insert_image_fit_to_cell(a0, a1, &a2, a3).is_ok(); g.result(ok); }
        36 => { let a0 = g_image(g); g.call("Worksheet::insert_background_image"); let _ = x.insert_background_image(&a0); }
        37 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_chart(g); g.call("Worksheet::insert_chart"); let ok = x.insert_chart(a0, a1, &a2).is_ok(); g.result(ok); }
        38 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_chart(g); let a3 = g.u32(); let a4 = g.u32(); g.call("Worksheet::insert_chart_with_offset"); let ok = x.insert_chart_with_offset(a0, a1, &a2, a3, a4).is_ok(); g.result(ok); }
        39 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_note(g); g.call("Worksheet::insert_note"); let ok = x.insert_note(a0, a1, &a2).is_ok(); g.result(ok); }
        40 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_shape(g); g.call("Worksheet::insert_shape"); let ok = x.insert_shape(a0, a1, &a2).is_ok(); g.result(ok); }
        41 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_shape(g); let a3 = g.u32(); let a4 = g.u32(); g.call("Worksheet::insert_shape_with_offset"); let ok = x.insert_shape_with_offset(a0, a1, &a2, a3, a4).is_ok(); g.result(ok); }
        42 => { let a0 = g.bool(); g.call("Worksheet::show_all_notes"); let _ = x.show_all_notes(a0); }
        43 => { let a0 = g.string(3); g.call("Worksheet::set_default_note_author"); let _ = x.set_default_note_author(a0); }
        44 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_button(g); g.call("Worksheet::insert_button"); let ok = x.insert_button(a0, a1, &a2).is_ok(); g.result(ok); }
        45 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_button(g); let a3 = g.u32(); let a4 = g.u32(); g.call("Worksheet::insert_button_with_offset"); let ok = x.insert_button_with_offset(a0, a1, &a2, a3, a4).is_ok(); g.result(ok); }
        46 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.bool(); g.call("Worksheet::insert_checkbox"); let ok = x.insert_checkbox(a0, a1, a2).is_ok(); g.result(ok); }
        47 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.bool(); let a3 = g_format(g); g.call("Worksheet::insert_checkbox_with_format"); let ok = x.insert_checkbox_with_format(a0, a1, a2, &a3).is_ok(); g.result(ok); }
        48 => { let a0 = g.row(); let a1 = g.f64(); g.call("Worksheet::set_row_height"); let ok = x.set_row_height(a0, a1).is_ok(); g.result(ok); }
        49 => { let a0 = g.row(); let a1 = g.u16(); g.call("Worksheet::set_row_height_pixels"); let ok = x.set_row_height_pixels(a0, a1).is_ok(); g.result(ok); }
        50 => { let a0 = g.row(); let a1 = g_format(g); g.call("Worksheet::set_row_format"); let ok = x.set_row_format(a0, &a1).is_ok(); g.result(ok); }
        51 => { let a0 = g.row(); let a1 = g.row(); g.call("Worksheet::group_rows"); let ok = x.group_rows(a0, a1).is_ok(); g.result(ok); }
        52 => { let a0 = g.row(); let a1 = g.row(); g.call("Worksheet::group_rows_collapsed"); let ok = x.group_rows_collapsed(a0, a1).is_ok(); g.result(ok); }
        53 => { let a0 = g.col(); let a1 = g.col(); g.call("Worksheet::group_columns"); let ok = x.group_columns(a0, a1).is_ok(); g.result(ok); }
        54 => { let a0 = g.col(); let a1 = g.col(); g.call("Worksheet::group_columns_collapsed"); let ok = x.group_columns_collapsed(a0, a1).is_ok(); g.result(ok); }
        55 => { let a0 = g.bool(); g.call("Worksheet::group_symbols_above"); let _ = x.group_symbols_above(a0); }
        56 => { let a0 = g.bool(); g.call("Worksheet::group_symbols_to_left"); let _ = x.group_symbols_to_left(a0); }
        57 => { let a0 = g.row(); g.call("Worksheet::set_row_hidden"); let ok = x.set_row_hidden(a0).is_ok(); g.result(ok); }
        58 => { let a0 = g.row(); g.call("Worksheet::set_row_unhidden"); let ok = x.set_row_unhidden(a0).is_ok(); g.result(ok); }
        59 => { let a0 = g.f64(); g.call("Worksheet::set_default_row_height"); let _ = x.set_default_row_height(a0); }
        60 => { let a0 = g.u16(); g.call("Worksheet::set_default_row_height_pixels"); let _ = x.set_default_row_height_pixels(a0); }
        61 => { let a0 = g.bool(); g.call("Worksheet::hide_unused_rows"); let _ = x.hide_unused_rows(a0); }
        62 => { let a0 = g.col(); let a1 = g.f64(); g.call("Worksheet::set_column_width"); let ok = x.set_column_width(a0, a1).is_ok(); g.result(ok); }
        63 => { let a0 = g.col(); let a1 = g.u16(); g.call("Worksheet::set_column_width_pixels"); let ok = x.set_column_width_pixels(a0, a1).is_ok(); g.result(ok); }
        64 => { let a0 = g.col(); let a1 = g.u16(); g.call("Worksheet::set_column_autofit_width"); let ok = x.set_column_autofit_width(a0, a1).is_ok(); g.result(ok); }
        65 => { let a0 = g.col(); let a1 = g_format(g); g.call("Worksheet::set_column_format"); let ok = x.set_column_format(a0, &a1).is_ok(); g.result(ok); }
        66 => { let a0 = g.col(); g.call("Worksheet::set_column_hidden"); let ok = x.set_column_hidden(a0).is_ok(); g.result(ok); }
        67 => { let a0 = g.col(); let a1 = g.col(); let a2 = g.f64(); g.call("Worksheet::set_column_range_width"); let ok = x.set_column_range_width(a0, a1, a2).is_ok(); g.result(ok); }
        68 => { let a0 = g.col(); let a1 = g.col(); let a2 = g.u16(); g.call("Worksheet::set_column_range_width_pixels"); let ok = x.set_column_range_width_pixels(a0, a1, a2).is_ok(); g.result(ok); }
        69 => { let a0 = g.col(); let a1 = g.col(); let a2 = g_format(g); g.call("Worksheet::set_column_range_format"); let ok = x.set_column_range_format(a0, a1, &a2).is_ok(); g.result(ok); }
        70 => { let a0 = g.col(); let a1 = g.col(); g.call("Worksheet::set_column_range_hidden"); let ok = x.set_column_range_hidden(a0, a1).is_ok(); g.result(ok); }
        71 => { let (r0, c0, r1, c1) = g.range4(); g.call("Worksheet::autofilter"); let ok = x.autofilter(r0, c0, r1, c1).is_ok(); g.result(ok); }
        72 => { let a0 = g.col(); let a1 = g_filter_condition(g); g.call("Worksheet::filter_column"); let ok = x.filter_column(a0, &a1).is_ok(); g.result(ok); }
        73 => {  g.call("Worksheet::filter_automatic_off"); let _ = x.filter_automatic_off(); }
        74 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_table(g); g.call("Worksheet::add_table"); let ok = x.add_table(r0, c0, r1, c1, &a4).is_ok(); g.result(ok); }
        75 => { let (r0, c0, r1, c1) = g.range4(); let a4 = g_data_validation(g); g.call("Worksheet::add_data_validation"); let ok = x.add_data_validation(r0, c0, r1, c1, &a4).is_ok(); g.result(ok); }
        76 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_sparkline(g); g.call("Worksheet::add_sparkline"); let ok = x.add_sparkline(a0, a1, &a2).is_ok(); g.result(ok); }
        77 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_sparkline(g); g.call("Worksheet::add_sparkline_group"); let ok = x.add_sparkline_group(r0, c0, r1, c1, &a4).is_ok(); g.result(ok); }
        78 => {  g.call("Worksheet::protect"); let _ = x.protect(); }
        79 => { let a0 = g.string(0); g.call("Worksheet::protect_with_password"); let _ = x.protect_with_password(&a0); }
        80 => { let a0 = g_protection_options(g); g.call("Worksheet::protect_with_options"); let _ = x.protect_with_options(&a0); }
        81 => { let (r0, c0, r1, c1) = g.range4(); g.call("Worksheet::unprotect_range"); let ok = x.unprotect_range(r0, c0, r1, c1).is_ok(); g.result(ok); }
        82 => { let (r0, c0, r1, c1) = g.range4(); let a4 = g.string(3); let a5 = g.string(0); g.call("Worksheet::unprotect_range_with_options"); let ok = x.unprotect_range_with_options(r0, c0, r1, c1, &a4, &a5).is_ok(); g.result(ok); }
        83 => { let (r0, c0, r1, c1) = g.range4(); g.call("Worksheet::set_selection"); let ok = x.set_selection(r0, c0, r1, c1).is_ok(); g.result(ok); }
        84 => { let a0 = g.row(); let a1 = g.col(); g.call("Worksheet::set_top_left_cell"); let ok = x.set_top_left_cell(a0, a1).is_ok(); g.result(ok); }
        85 => { let a0 = g.row(); let a1 = g.col(); let a2 = g.string(0); g.call("Worksheet::set_formula_result"); let _ = x.set_formula_result(a0, a1, a2); }
        86 => { let a0 = g.string(0); g.call("Worksheet::set_formula_result_default"); let _ = x.set_formula_result_default(a0); }
        87 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_format(g); g.call("Worksheet::set_cell_format"); let ok = x.set_cell_format(a0, a1, &a2).is_ok(); g.result(ok); }
        88 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_format(g); g.call("Worksheet::set_range_format"); let ok = x.set_range_format(r0, c0, r1, c1, &a4).is_ok(); g.result(ok); }
        89 => { let (r0, c0, r1, c1) = g.small(); let a4 = g_format(g); let a5 = g_format(g); g.call("Worksheet::set_range_format_with_border"); let ok = x.set_range_format_with_border(r0, c0, r1, c1, &a4, &a5).is_ok(); g.result(ok); }
        90 => { let a0 = g.row(); let a1 = g.col(); g.call("Worksheet::clear_cell"); let _ = x.clear_cell(a0, a1); }
        91 => { let a0 = g.row(); let a1 = g.col(); g.call("Worksheet::clear_cell_format"); let _ = x.clear_cell_format(a0, a1); }
        92 => { let a0 = g.string(3); g.call("Worksheet::get_serialize_dimensions"); let ok = x.get_serialize_dimensions(&a0).is_ok(); g.result(ok); }
        93 => { let a0 = g.string(3); let a1 = g.string(3); g.call("Worksheet::get_serialize_column_dimensions"); let ok = x.get_serialize_column_dimensions(&a0, &a1).is_ok(); g.result(ok); }
        94 => { let a0 = g.bool(); g.call("Worksheet::set_right_to_left"); let _ = x.set_right_to_left(a0); }
        95 => { let a0 = g.bool(); g.call("Worksheet::set_active"); let _ = x.set_active(a0); }
        96 => { let a0 = g.bool(); g.call("Worksheet::set_selected"); let _ = x.set_selected(a0); }
        97 => { let a0 = g.bool(); g.call("Worksheet::set_hidden"); let _ = x.set_hidden(a0); }
        98 => { let a0 = g.bool(); g.call("Worksheet::set_very_hidden"); let _ = x.set_very_hidden(a0); }
        99 => { let a0 = g.bool(); g.call("Worksheet::set_first_tab"); let _ = x.set_first_tab(a0); }
        100 => { let a0 = g.color(); g.call("Worksheet::set_tab_color"); let _ = x.set_tab_color(a0); }
        101 => { let a0 = g.u8(); g.call("Worksheet::set_paper_size"); let _ = x.set_paper_size(a0); }
        102 => { let a0 = g.bool(); g.call("Worksheet::set_page_order"); let _ = x.set_page_order(a0); }
        103 => {  g.call("Worksheet::set_landscape"); let _ = x.set_landscape(); }
        104 => {  g.call("Worksheet::set_portrait"); let _ = x.set_portrait(); }
        105 => {  g.call("Worksheet::set_view_normal"); let _ = x.set_view_normal(); }
        106 => {  g.call("Worksheet::set_view_page_layout"); let _ = x.set_view_page_layout(); }
        107 => {  g.call("Worksheet::set_view_page_break_preview"); let _ = x.set_view_page_break_preview(); }
        108 => { let a0 = g.list(|g| g.row()); g.call("Worksheet::set_page_breaks"); let ok = x.set_page_breaks(&a0).is_ok(); g.result(ok); }
        109 => { let a0 = g.list(|g| g.row()); g.call("Worksheet::set_vertical_page_breaks"); let ok = x.set_vertical_page_breaks(&a0).is_ok(); g.result(ok); }
        110 => { let a0 = g.u16(); g.call("Worksheet::set_zoom"); let _ = x.set_zoom(a0); }
        111 => { let a0 = g.row(); let a1 = g.col(); g.call("Worksheet::set_freeze_panes"); let ok = x.set_freeze_panes(a0, a1).is_ok(); g.result(ok); }
        112 => { let a0 = g.row(); let a1 = g.col(); g.call("Worksheet::set_freeze_panes_top_cell"); let ok = x.set_freeze_panes_top_cell(a0, a1).is_ok(); g.result(ok); }
        113 => { let a0 = g.string(0); g.call("Worksheet::set_header"); let _ = x.set_header(a0); }
        114 => { let a0 = g.string(0); g.call("Worksheet::set_footer"); let _ = x.set_footer(a0); }
        115 => { let a0 = g_image(g); let a1 = g_header_image_position(g); g.call("Worksheet::set_header_image"); let ok = x.set_header_image(&a0, a1).is_ok(); g.result(ok); }
        116 => { let a0 = g_image(g); let a1 = g_header_image_position(g); g.call("Worksheet::set_footer_image"); let ok = x.set_footer_image(&a0, a1).is_ok(); g.result(ok); }
        117 => { let a0 = g.bool(); g.call("Worksheet::set_header_footer_scale_with_doc"); let _ = x.set_header_footer_scale_with_doc(a0); }
        118 => { let a0 = g.bool(); g.call("Worksheet::set_header_footer_align_with_page"); let _ = x.set_header_footer_align_with_page(a0); }
        119 => { let a0 = g.f64(); let a1 = g.f64(); let a2 = g.f64(); let a3 = g.f64(); let a4 = g.f64(); let a5 = g.f64(); g.call("Worksheet::set_margins"); let _ = x.set_margins(a0, a1, a2, a3, a4, a5); }
        120 => { let a0 = g.u16(); g.call("Worksheet::set_print_first_page_number"); let _ = x.set_print_first_page_number(a0); }
        121 => { let a0 = g.u16(); g.call("Worksheet::set_print_scale"); let _ = x.set_print_scale(a0); }
        122 => { let a0 = g.u16(); let a1 = g.u16(); g.call("Worksheet::set_print_fit_to_pages"); let _ = x.set_print_fit_to_pages(a0, a1); }
        123 => { let a0 = g.bool(); g.call("Worksheet::set_print_center_horizontally"); let _ = x.set_print_center_horizontally(a0); }
        124 => { let a0 = g.bool(); g.call("Worksheet::set_print_center_vertically"); let _ = x.set_print_center_vertically(a0); }
        125 => { let a0 = g.bool(); g.call("Worksheet::set_screen_gridlines"); let _ = x.set_screen_gridlines(a0); }
        126 => { let a0 = g.bool(); g.call("Worksheet::set_print_gridlines"); let _ = x.set_print_gridlines(a0); }
        127 => { let a0 = g.bool(); g.call("Worksheet::set_print_black_and_white"); let _ = x.set_print_black_and_white(a0); }
        128 => { let a0 = g.bool(); g.call("Worksheet::set_print_draft"); let _ = x.set_print_draft(a0); }
        129 => { let a0 = g.bool(); g.call("Worksheet::set_print_headings"); let _ = x.set_print_headings(a0); }
        130 => { let (r0, c0, r1, c1) = g.range4(); g.call("Worksheet::set_print_area"); let ok = x.set_print_area(r0, c0, r1, c1).is_ok(); g.result(ok); }
        131 => { let a0 = g.row(); let a1 = g.row(); g.call("Worksheet::set_repeat_rows"); let ok = x.set_repeat_rows(a0, a1).is_ok(); g.result(ok); }
        132 => { let a0 = g.col(); let a1 = g.col(); g.call("Worksheet::set_repeat_columns"); let ok = x.set_repeat_columns(a0, a1).is_ok(); g.result(ok); }
        133 => {  g.call("Worksheet::autofit"); let _ = x.autofit(); }
        134 => { let a0 = g.u16(); g.call("Worksheet::autofit_to_max_width"); let _ = x.autofit_to_max_width(a0); }
        135 => { let a0 = g.string(3); g.call("Worksheet::set_vba_name"); let ok = x.set_vba_name(a0).is_ok(); g.result(ok); }
        136 => { let a0 = g.string(0); g.call("Worksheet::set_nan_value"); let _ = x.set_nan_value(a0); }
        137 => { let a0 = g.string(0); g.call("Worksheet::set_infinity_value"); let _ = x.set_infinity_value(a0); }
        138 => { let a0 = g.string(0); g.call("Worksheet::set_neg_infinity_value"); let _ = x.set_neg_infinity_value(a0); }
        139 => { let a0 = g.row(); let a1 = g.col(); let a2 = g_ignore_error(g); g.call("Worksheet::ignore_error"); let ok = x.ignore_error(a0, a1, a2).is_ok(); g.result(ok); }
        140 => { let (r0, c0, r1, c1) = g.range4(); let a4 = g_ignore_error(g); g.call("Worksheet::ignore_error_range"); let ok = x.ignore_error_range(r0, c0, r1, c1, a4).is_ok(); g.result(ok); }
        141 => { crate::hostile::worksheet_more(g, x); }
        142 => { crate::hostile::add_conditional_format(g, x); }
        _ => { crate::hostile::add_conditional_format(g, x); }
    }
}

pub fn g_chart_axis_crossing(g: &mut G) -> ChartAxisCrossing {
    match g.below(5) {
        0 => ChartAxisCrossing::Automatic,
        1 => ChartAxisCrossing::Min,
        2 => ChartAxisCrossing::Max,
        3 => ChartAxisCrossing::CategoryNumber(g.u32()),
        _ => ChartAxisCrossing::AxisValue(g.f64()),
    }
}

pub fn g_chart_axis_date_unit_type(g: &mut G) -> ChartAxisDateUnitType {
    match g.below(3) {
        0 => ChartAxisDateUnitType::Days,
        1 => ChartAxisDateUnitType::Months,
        _ => ChartAxisDateUnitType::Years,
    }
}

pub fn g_chart_axis_display_unit_type(g: &mut G) -> ChartAxisDisplayUnitType {
    match g.below(10) {
        0 => ChartAxisDisplayUnitType::None,
        1 => ChartAxisDisplayUnitType::Hundreds,
        2 => ChartAxisDisplayUnitType::Thousands,
        3 => ChartAxisDisplayUnitType::TenThousands,
        4 => ChartAxisDisplayUnitType::HundredThousands,
        5 => ChartAxisDisplayUnitType::Millions,
        6 => ChartAxisDisplayUnitType::TenMillions,
        7 => ChartAxisDisplayUnitType::HundredMillions,
        8 => ChartAxisDisplayUnitType::Billions,
        _ => ChartAxisDisplayUnitType::Trillions,
    }
}

pub fn g_chart_axis_label_alignment(g: &mut G) -> ChartAxisLabelAlignment {
    match g.below(3) {
        0 => ChartAxisLabelAlignment::Center,
        1 => ChartAxisLabelAlignment::Left,
        _ => ChartAxisLabelAlignment::Right,
    }
}

pub fn g_chart_axis_label_position(g: &mut G) -> ChartAxisLabelPosition {
    match g.below(4) {
        0 => ChartAxisLabelPosition::NextTo,
        1 => ChartAxisLabelPosition::High,
        2 => ChartAxisLabelPosition::Low,
        _ => ChartAxisLabelPosition::None,
    }
}

pub fn g_chart_axis_tick_type(g: &mut G) -> ChartAxisTickType {
    match g.below(4) {
        0 => ChartAxisTickType::None,
        1 => ChartAxisTickType::Inside,
        2 => ChartAxisTickType::Outside,
        _ => ChartAxisTickType::Cross,
    }
}

pub fn g_chart_data_label_position(g: &mut G) -> ChartDataLabelPosition {
    match g.below(10) {
        0 => ChartDataLabelPosition::Default,
        1 => ChartDataLabelPosition::Center,
        2 => ChartDataLabelPosition::Right,
        3 => ChartDataLabelPosition::Left,
        4 => ChartDataLabelPosition::Above,
        5 => ChartDataLabelPosition::Below,
        6 => ChartDataLabelPosition::InsideBase,
        7 => ChartDataLabelPosition::InsideEnd,
        8 => ChartDataLabelPosition::OutsideEnd,
        _ => ChartDataLabelPosition::BestFit,
    }
}

pub fn g_chart_empty_cells(g: &mut G) -> ChartEmptyCells {
    match g.below(3) {
        0 => ChartEmptyCells::Gaps,
        1 => ChartEmptyCells::Zero,
        _ => ChartEmptyCells::Connected,
    }
}

pub fn g_chart_error_bars_direction(g: &mut G) -> ChartErrorBarsDirection {
    match g.below(3) {
        0 => ChartErrorBarsDirection::Both,
        1 => ChartErrorBarsDirection::Minus,
        _ => ChartErrorBarsDirection::Plus,
    }
}

pub fn g_chart_error_bars_type(g: &mut G) -> ChartErrorBarsType {
    match g.below(5) {
        0 => ChartErrorBarsType::FixedValue(g.f64()),
        1 => ChartErrorBarsType::Percentage(g.f64()),
        2 => ChartErrorBarsType::StandardDeviation(g.f64()),
        3 => ChartErrorBarsType::StandardError,
        _ => ChartErrorBarsType::Custom(g_chart_range(g), g_chart_range(g)),
    }
}

pub fn g_chart_gradient_fill_type(g: &mut G) -> ChartGradientFillType {
    match g.below(4) {
        0 => ChartGradientFillType::Linear,
        1 => ChartGradientFillType::Radial,
        2 => ChartGradientFillType::Rectangular,
        _ => ChartGradientFillType::Path,
    }
}

pub fn g_chart_legend_position(g: &mut G) -> ChartLegendPosition {
    match g.below(5) {
        0 => ChartLegendPosition::Right,
        1 => ChartLegendPosition::Left,
        2 => ChartLegendPosition::Top,
        3 => ChartLegendPosition::Bottom,
        _ => ChartLegendPosition::TopRight,
    }
}

pub fn g_chart_line_dash_type(g: &mut G) -> ChartLineDashType {
    match g.below(8) {
        0 => ChartLineDashType::Solid,
        1 => ChartLineDashType::RoundDot,
        2 => ChartLineDashType::SquareDot,
        3 => ChartLineDashType::Dash,
        4 => ChartLineDashType::DashDot,
        5 => ChartLineDashType::LongDash,
        6 => ChartLineDashType::LongDashDot,
        _ => ChartLineDashType::LongDashDotDot,
    }
}

pub fn g_chart_marker_type(g: &mut G) -> ChartMarkerType {
    match g.below(9) {
        0 => ChartMarkerType::Square,
        1 => ChartMarkerType::Diamond,
        2 => ChartMarkerType::Triangle,
        3 => ChartMarkerType::X,
        4 => ChartMarkerType::Star,
        5 => ChartMarkerType::ShortDash,
        6 => ChartMarkerType::LongDash,
        7 => ChartMarkerType::Circle,
        _ => ChartMarkerType::PlusSign,
    }
}

pub fn g_chart_pattern_fill_type(g: &mut G) -> ChartPatternFillType {
    match g.below(48) {
        0 => ChartPatternFillType::Dotted5Percent,
        1 => ChartPatternFillType::Dotted10Percent,
        2 => ChartPatternFillType::Dotted20Percent,
        3 => ChartPatternFillType::Dotted25Percent,
        4 => ChartPatternFillType::Dotted30Percent,
        5 => ChartPatternFillType::Dotted40Percent,
        6 => ChartPatternFillType::Dotted50Percent,
        7 => ChartPatternFillType::Dotted60Percent,
        8 => ChartPatternFillType::Dotted70Percent,
        9 => ChartPatternFillType::Dotted75Percent,
        10 => ChartPatternFillType::Dotted80Percent,
        11 => ChartPatternFillType::Dotted90Percent,
        12 => ChartPatternFillType::DiagonalStripesLightDownwards,
        13 => ChartPatternFillType::DiagonalStripesLightUpwards,
        14 => ChartPatternFillType::DiagonalStripesDarkDownwards,
        15 => ChartPatternFillType::DiagonalStripesDarkUpwards,
        16 => ChartPatternFillType::DiagonalStripesWideDownwards,
        17 => ChartPatternFillType::DiagonalStripesWideUpwards,
        18 => ChartPatternFillType::VerticalStripesLight,
        19 => ChartPatternFillType::HorizontalStripesLight,
        20 => ChartPatternFillType::VerticalStripesNarrow,
        21 => ChartPatternFillType::HorizontalStripesNarrow,
        22 => ChartPatternFillType::VerticalStripesDark,
        23 => ChartPatternFillType::HorizontalStripesDark,
        24 => ChartPatternFillType::StripesBackslashes,
        25 => ChartPatternFillType::StripesForwardSlashes,
        26 => ChartPatternFillType::HorizontalStripesAlternating,
        27 => ChartPatternFillType::VerticalStripesAlternating,
        28 => ChartPatternFillType::SmallConfetti,
        29 => ChartPatternFillType::LargeConfetti,
        30 => ChartPatternFillType::Zigzag,
        31 => ChartPatternFillType::Wave,
        32 => ChartPatternFillType::DiagonalBrick,
        33 => ChartPatternFillType::HorizontalBrick,
        34 => ChartPatternFillType::Weave,
        35 => ChartPatternFillType::Plaid,
        36 => ChartPatternFillType::Divot,
        37 => ChartPatternFillType::DottedGrid,
        38 => ChartPatternFillType::DottedDiamond,
        39 => ChartPatternFillType::Shingle,
        40 => ChartPatternFillType::Trellis,
        41 => ChartPatternFillType::Sphere,
        42 => ChartPatternFillType::SmallGrid,
        43 => ChartPatternFillType::LargeGrid,
        44 => ChartPatternFillType::SmallCheckerboard,
        45 => ChartPatternFillType::LargeCheckerboard,
        46 => ChartPatternFillType::OutlinedDiamondGrid,
        _ => ChartPatternFillType::SolidDiamondGrid,
    }
}

pub fn g_chart_trendline_type(g: &mut G) -> ChartTrendlineType {
    match g.below(7) {
        0 => ChartTrendlineType::None,
        1 => ChartTrendlineType::Exponential,
        2 => ChartTrendlineType::Linear,
        3 => ChartTrendlineType::Logarithmic,
        4 => ChartTrendlineType::Polynomial(g.u8()),
        5 => ChartTrendlineType::Power,
        _ => ChartTrendlineType::MovingAverage(g.u8()),
    }
}

pub fn g_chart_type(g: &mut G) -> ChartType {
    match g.below(23) {
        0 => ChartType::Area,
        1 => ChartType::AreaStacked,
        2 => ChartType::AreaPercentStacked,
        3 => ChartType::Bar,
        4 => ChartType::BarStacked,
        5 => ChartType::BarPercentStacked,
        6 => ChartType::Column,
        7 => ChartType::ColumnStacked,
        8 => ChartType::ColumnPercentStacked,
        9 => ChartType::Doughnut,
        10 => ChartType::Line,
        11 => ChartType::LineStacked,
        12 => ChartType::LinePercentStacked,
        13 => ChartType::Pie,
        14 => ChartType::Radar,
        15 => ChartType::RadarWithMarkers,
        16 => ChartType::RadarFilled,
        17 => ChartType::Scatter,
        18 => ChartType::ScatterStraight,
        19 => ChartType::ScatterStraightWithMarkers,
        20 => ChartType::ScatterSmooth,
        21 => ChartType::ScatterSmoothWithMarkers,
        _ => ChartType::Stock,
    }
}

pub fn g_conditional_format_average_rule(g: &mut G) -> ConditionalFormatAverageRule {
    match g.below(10) {
        0 => ConditionalFormatAverageRule::AboveAverage,
        1 => ConditionalFormatAverageRule::BelowAverage,
        2 => ConditionalFormatAverageRule::EqualOrAboveAverage,
        3 => ConditionalFormatAverageRule::EqualOrBelowAverage,
        4 => ConditionalFormatAverageRule::OneStandardDeviationAbove,
        5 => ConditionalFormatAverageRule::OneStandardDeviationBelow,
        6 => ConditionalFormatAverageRule::TwoStandardDeviationsAbove,
        7 => ConditionalFormatAverageRule::TwoStandardDeviationsBelow,
        8 => ConditionalFormatAverageRule::ThreeStandardDeviationsAbove,
        _ => ConditionalFormatAverageRule::ThreeStandardDeviationsBelow,
    }
}

pub fn g_conditional_format_data_bar_axis_position(g: &mut G) -> ConditionalFormatDataBarAxisPosition {
    match g.below(3) {
        0 => ConditionalFormatDataBarAxisPosition::Automatic,
        1 => ConditionalFormatDataBarAxisPosition::Midpoint,
        _ => ConditionalFormatDataBarAxisPosition::None,
    }
}

pub fn g_conditional_format_data_bar_direction(g: &mut G) -> ConditionalFormatDataBarDirection {
    match g.below(3) {
        0 => ConditionalFormatDataBarDirection::Context,
        1 => ConditionalFormatDataBarDirection::LeftToRight,
        _ => ConditionalFormatDataBarDirection::RightToLeft,
    }
}

pub fn g_conditional_format_date_rule(g: &mut G) -> ConditionalFormatDateRule {
    match g.below(10) {
        0 => ConditionalFormatDateRule::Yesterday,
        1 => ConditionalFormatDateRule::Today,
        2 => ConditionalFormatDateRule::Tomorrow,
        3 => ConditionalFormatDateRule::Last7Days,
        4 => ConditionalFormatDateRule::LastWeek,
        5 => ConditionalFormatDateRule::ThisWeek,
        6 => ConditionalFormatDateRule::NextWeek,
        7 => ConditionalFormatDateRule::LastMonth,
        8 => ConditionalFormatDateRule::ThisMonth,
        _ => ConditionalFormatDateRule::NextMonth,
    }
}

pub fn g_conditional_format_icon_type(g: &mut G) -> ConditionalFormatIconType {
    match g.below(20) {
        0 => ConditionalFormatIconType::ThreeArrows,
        1 => ConditionalFormatIconType::ThreeArrowsGray,
        2 => ConditionalFormatIconType::ThreeFlags,
        3 => ConditionalFormatIconType::ThreeTrafficLights,
        4 => ConditionalFormatIconType::ThreeTrafficLightsWithRim,
        5 => ConditionalFormatIconType::ThreeSigns,
        6 => ConditionalFormatIconType::ThreeSymbolsCircled,
        7 => ConditionalFormatIconType::ThreeSymbols,
        8 => ConditionalFormatIconType::ThreeStars,
        9 => ConditionalFormatIconType::ThreeTriangles,
        10 => ConditionalFormatIconType::FourArrows,
        11 => ConditionalFormatIconType::FourArrowsGray,
        12 => ConditionalFormatIconType::FourRedToBlack,
        13 => ConditionalFormatIconType::FourHistograms,
        14 => ConditionalFormatIconType::FourTrafficLights,
        15 => ConditionalFormatIconType::FiveArrows,
        16 => ConditionalFormatIconType::FiveArrowsGray,
        17 => ConditionalFormatIconType::FiveHistograms,
        18 => ConditionalFormatIconType::FiveQuadrants,
        _ => ConditionalFormatIconType::FiveBoxes,
    }
}

pub fn g_conditional_format_text_rule(g: &mut G) -> ConditionalFormatTextRule {
    match g.below(4) {
        0 => ConditionalFormatTextRule::Contains(g.string(0)),
        1 => ConditionalFormatTextRule::DoesNotContain(g.string(0)),
        2 => ConditionalFormatTextRule::BeginsWith(g.string(0)),
        _ => ConditionalFormatTextRule::EndsWith(g.string(0)),
    }
}

pub fn g_conditional_format_top_rule(g: &mut G) -> ConditionalFormatTopRule {
    match g.below(4) {
        0 => ConditionalFormatTopRule::Top(g.u16()),
        1 => ConditionalFormatTopRule::Bottom(g.u16()),
        2 => ConditionalFormatTopRule::TopPercent(g.u16()),
        _ => ConditionalFormatTopRule::BottomPercent(g.u16()),
    }
}

pub fn g_conditional_format_type(g: &mut G) -> ConditionalFormatType {
    match g.below(7) {
        0 => ConditionalFormatType::Automatic,
        1 => ConditionalFormatType::Lowest,
        2 => ConditionalFormatType::Number,
        3 => ConditionalFormatType::Percent,
        4 => ConditionalFormatType::Formula,
        5 => ConditionalFormatType::Percentile,
        _ => ConditionalFormatType::Highest,
    }
}

pub fn g_data_validation_error_style(g: &mut G) -> DataValidationErrorStyle {
    match g.below(3) {
        0 => DataValidationErrorStyle::Stop,
        1 => DataValidationErrorStyle::Warning,
        _ => DataValidationErrorStyle::Information,
    }
}

pub fn g_filter_criteria(g: &mut G) -> FilterCriteria {
    match g.below(12) {
        0 => FilterCriteria::EqualTo,
        1 => FilterCriteria::NotEqualTo,
        2 => FilterCriteria::GreaterThan,
        3 => FilterCriteria::GreaterThanOrEqualTo,
        4 => FilterCriteria::LessThan,
        5 => FilterCriteria::LessThanOrEqualTo,
        6 => FilterCriteria::BeginsWith,
        7 => FilterCriteria::DoesNotBeginWith,
        8 => FilterCriteria::EndsWith,
        9 => FilterCriteria::DoesNotEndWith,
        10 => FilterCriteria::Contains,
        _ => FilterCriteria::DoesNotContain,
    }
}

pub fn g_format_align(g: &mut G) -> FormatAlign {
    match g.below(13) {
        0 => FormatAlign::General,
        1 => FormatAlign::Left,
        2 => FormatAlign::Center,
        3 => FormatAlign::Right,
        4 => FormatAlign::Fill,
        5 => FormatAlign::Justify,
        6 => FormatAlign::CenterAcross,
        7 => FormatAlign::Distributed,
        8 => FormatAlign::Top,
        9 => FormatAlign::Bottom,
        10 => FormatAlign::VerticalCenter,
        11 => FormatAlign::VerticalJustify,
        _ => FormatAlign::VerticalDistributed,
    }
}

pub fn g_format_border(g: &mut G) -> FormatBorder {
    match g.below(14) {
        0 => FormatBorder::None,
        1 => FormatBorder::Thin,
        2 => FormatBorder::Medium,
        3 => FormatBorder::Dashed,
        4 => FormatBorder::Dotted,
        5 => FormatBorder::Thick,
        6 => FormatBorder::Double,
        7 => FormatBorder::Hair,
        8 => FormatBorder::MediumDashed,
        9 => FormatBorder::DashDot,
        10 => FormatBorder::MediumDashDot,
        11 => FormatBorder::DashDotDot,
        12 => FormatBorder::MediumDashDotDot,
        _ => FormatBorder::SlantDashDot,
    }
}

pub fn g_format_diagonal_border(g: &mut G) -> FormatDiagonalBorder {
    match g.below(4) {
        0 => FormatDiagonalBorder::None,
        1 => FormatDiagonalBorder::BorderUp,
        2 => FormatDiagonalBorder::BorderDown,
        _ => FormatDiagonalBorder::BorderUpDown,
    }
}

pub fn g_format_pattern(g: &mut G) -> FormatPattern {
    match g.below(19) {
        0 => FormatPattern::None,
        1 => FormatPattern::Solid,
        2 => FormatPattern::MediumGray,
        3 => FormatPattern::DarkGray,
        4 => FormatPattern::LightGray,
        5 => FormatPattern::DarkHorizontal,
        6 => FormatPattern::DarkVertical,
        7 => FormatPattern::DarkDown,
        8 => FormatPattern::DarkUp,
        9 => FormatPattern::DarkGrid,
        10 => FormatPattern::DarkTrellis,
        11 => FormatPattern::LightHorizontal,
        12 => FormatPattern::LightVertical,
        13 => FormatPattern::LightDown,
        14 => FormatPattern::LightUp,
        15 => FormatPattern::LightGrid,
        16 => FormatPattern::LightTrellis,
        17 => FormatPattern::Gray125,
        _ => FormatPattern::Gray0625,
    }
}

pub fn g_format_script(g: &mut G) -> FormatScript {
    match g.below(3) {
        0 => FormatScript::None,
        1 => FormatScript::Superscript,
        _ => FormatScript::Subscript,
    }
}

pub fn g_format_underline(g: &mut G) -> FormatUnderline {
    match g.below(5) {
        0 => FormatUnderline::None,
        1 => FormatUnderline::Single,
        2 => FormatUnderline::Double,
        3 => FormatUnderline::SingleAccounting,
        _ => FormatUnderline::DoubleAccounting,
    }
}

pub fn g_header_image_position(g: &mut G) -> HeaderImagePosition {
    match g.below(3) {
        0 => HeaderImagePosition::Left,
        1 => HeaderImagePosition::Center,
        _ => HeaderImagePosition::Right,
    }
}

pub fn g_ignore_error(g: &mut G) -> IgnoreError {
    match g.below(9) {
        0 => IgnoreError::NumberStoredAsText,
        1 => IgnoreError::FormulaError,
        2 => IgnoreError::FormulaDiffers,
        3 => IgnoreError::FormulaRefersToEmptyCells,
        4 => IgnoreError::FormulaOmitsCells,
        5 => IgnoreError::DataValidationError,
        6 => IgnoreError::TwoDigitTextYear,
        7 => IgnoreError::UnlockedCellsWithFormula,
        _ => IgnoreError::InconsistentColumnFormula,
    }
}

pub fn g_object_movement(g: &mut G) -> ObjectMovement {
    match g.below(4) {
        0 => ObjectMovement::MoveAndSizeWithCells,
        1 => ObjectMovement::MoveButDontSizeWithCells,
        2 => ObjectMovement::DontMoveOrSizeWithCells,
        _ => ObjectMovement::MoveAndSizeWithCellsAfter,
    }
}

pub fn g_shape_gradient_fill_type(g: &mut G) -> ShapeGradientFillType {
    match g.below(4) {
        0 => ShapeGradientFillType::Linear,
        1 => ShapeGradientFillType::Radial,
        2 => ShapeGradientFillType::Rectangular,
        _ => ShapeGradientFillType::Path,
    }
}

pub fn g_shape_line_dash_type(g: &mut G) -> ShapeLineDashType {
    match g.below(8) {
        0 => ShapeLineDashType::Solid,
        1 => ShapeLineDashType::RoundDot,
        2 => ShapeLineDashType::SquareDot,
        3 => ShapeLineDashType::Dash,
        4 => ShapeLineDashType::DashDot,
        5 => ShapeLineDashType::LongDash,
        6 => ShapeLineDashType::LongDashDot,
        _ => ShapeLineDashType::LongDashDotDot,
    }
}

pub fn g_shape_pattern_fill_type(g: &mut G) -> ShapePatternFillType {
    match g.below(48) {
        0 => ShapePatternFillType::Dotted5Percent,
        1 => ShapePatternFillType::Dotted10Percent,
        2 => ShapePatternFillType::Dotted20Percent,
        3 => ShapePatternFillType::Dotted25Percent,
        4 => ShapePatternFillType::Dotted30Percent,
        5 => ShapePatternFillType::Dotted40Percent,
        6 => ShapePatternFillType::Dotted50Percent,
        7 => ShapePatternFillType::Dotted60Percent,
        8 => ShapePatternFillType::Dotted70Percent,
        9 => ShapePatternFillType::Dotted75Percent,
        10 => ShapePatternFillType::Dotted80Percent,
        11 => ShapePatternFillType::Dotted90Percent,
        12 => ShapePatternFillType::DiagonalStripesLightDownwards,
        13 => ShapePatternFillType::DiagonalStripesLightUpwards,
        14 => ShapePatternFillType::DiagonalStripesDarkDownwards,
        15 => ShapePatternFillType::DiagonalStripesDarkUpwards,
        16 => ShapePatternFillType::DiagonalStripesWideDownwards,
        17 => ShapePatternFillType::DiagonalStripesWideUpwards,
        18 => ShapePatternFillType::VerticalStripesLight,
        19 => ShapePatternFillType::HorizontalStripesLight,
        20 => ShapePatternFillType::VerticalStripesNarrow,
        21 => ShapePatternFillType::HorizontalStripesNarrow,
        22 => ShapePatternFillType::VerticalStripesDark,
        23 => ShapePatternFillType::HorizontalStripesDark,
        24 => ShapePatternFillType::StripesBackslashes,
        25 => ShapePatternFillType::StripesForwardSlashes,
        26 => ShapePatternFillType::HorizontalStripesAlternating,
        27 => ShapePatternFillType::VerticalStripesAlternating,
        28 => ShapePatternFillType::SmallConfetti,
        29 => ShapePatternFillType::LargeConfetti,
        30 => ShapePatternFillType::Zigzag,
        31 => ShapePatternFillType::Wave,
        32 => ShapePatternFillType::DiagonalBrick,
        33 => ShapePatternFillType::HorizontalBrick,
        34 => ShapePatternFillType::Weave,
        35 => ShapePatternFillType::Plaid,
        36 => ShapePatternFillType::Divot,
        37 => ShapePatternFillType::DottedGrid,
        38 => ShapePatternFillType::DottedDiamond,
        39 => ShapePatternFillType::Shingle,
        40 => ShapePatternFillType::Trellis,
        41 => ShapePatternFillType::Sphere,
        42 => ShapePatternFillType::SmallGrid,
        43 => ShapePatternFillType::LargeGrid,
        44 => ShapePatternFillType::SmallCheckerboard,
        45 => ShapePatternFillType::LargeCheckerboard,
        46 => ShapePatternFillType::OutlinedDiamondGrid,
        _ => ShapePatternFillType::SolidDiamondGrid,
    }
}

pub fn g_shape_text_direction(g: &mut G) -> ShapeTextDirection {
    match g.below(5) {
        0 => ShapeTextDirection::Horizontal,
        1 => ShapeTextDirection::Rotate270,
        2 => ShapeTextDirection::Rotate90,
        3 => ShapeTextDirection::Rotate90EastAsian,
        _ => ShapeTextDirection::Stacked,
    }
}

pub fn g_shape_text_horizontal_alignment(g: &mut G) -> ShapeTextHorizontalAlignment {
    match g.below(4) {
        0 => ShapeTextHorizontalAlignment::Default,
        1 => ShapeTextHorizontalAlignment::Left,
        2 => ShapeTextHorizontalAlignment::Center,
        _ => ShapeTextHorizontalAlignment::Right,
    }
}

pub fn g_shape_text_vertical_alignment(g: &mut G) -> ShapeTextVerticalAlignment {
    match g.below(6) {
        0 => ShapeTextVerticalAlignment::Top,
        1 => ShapeTextVerticalAlignment::Middle,
        2 => ShapeTextVerticalAlignment::Bottom,
        3 => ShapeTextVerticalAlignment::TopCentered,
        4 => ShapeTextVerticalAlignment::MiddleCentered,
        _ => ShapeTextVerticalAlignment::BottomCentered,
    }
}

pub fn g_sparkline_type(g: &mut G) -> SparklineType {
    match g.below(3) {
        0 => SparklineType::Line,
        1 => SparklineType::Column,
        _ => SparklineType::WinLose,
    }
}

pub fn g_table_function(g: &mut G) -> TableFunction {
    match g.below(10) {
        0 => TableFunction::None,
        1 => TableFunction::Average,
        2 => TableFunction::Count,
        3 => TableFunction::CountNumbers,
        4 => TableFunction::Max,
        5 => TableFunction::Min,
        6 => TableFunction::Sum,
        7 => TableFunction::StdDev,
        8 => TableFunction::Var,
        _ => TableFunction::Custom(g_formula(g)),
    }
}

pub fn g_table_style(g: &mut G) -> TableStyle {
    match g.below(61) {
        0 => TableStyle::None,
        1 => TableStyle::Light1,
        2 => TableStyle::Light2,
        3 => TableStyle::Light3,
        4 => TableStyle::Light4,
        5 => TableStyle::Light5,
        6 => TableStyle::Light6,
        7 => TableStyle::Light7,
        8 => TableStyle::Light8,
        9 => TableStyle::Light9,
        10 => TableStyle::Light10,
        11 => TableStyle::Light11,
        12 => TableStyle::Light12,
        13 => TableStyle::Light13,
        14 => TableStyle::Light14,
        15 => TableStyle::Light15,
        16 => TableStyle::Light16,
        17 => TableStyle::Light17,
        18 => TableStyle::Light18,
        19 => TableStyle::Light19,
        20 => TableStyle::Light20,
        21 => TableStyle::Light21,
        22 => TableStyle::Medium1,
        23 => TableStyle::Medium2,
        24 => TableStyle::Medium3,
        25 => TableStyle::Medium4,
        26 => TableStyle::Medium5,
        27 => TableStyle::Medium6,
        28 => TableStyle::Medium7,
        29 => TableStyle::Medium8,
        30 => TableStyle::Medium9,
        31 => TableStyle::Medium10,
        32 => TableStyle::Medium11,
        33 => TableStyle::Medium12,
        34 => TableStyle::Medium13,
        35 => TableStyle::Medium14,
        36 => TableStyle::Medium15,
        37 => TableStyle::Medium16,
        38 => TableStyle::Medium17,
        39 => TableStyle::Medium18,
        40 => TableStyle::Medium19,
        41 => TableStyle::Medium20,
        42 => TableStyle::Medium21,
        43 => TableStyle::Medium22,
        44 => TableStyle::Medium23,
        45 => TableStyle::Medium24,
        46 => TableStyle::Medium25,
        47 => TableStyle::Medium26,
        48 => TableStyle::Medium27,
        49 => TableStyle::Medium28,
        50 => TableStyle::Dark1,
        51 => TableStyle::Dark2,
        52 => TableStyle::Dark3,
        53 => TableStyle::Dark4,
        54 => TableStyle::Dark5,
        55 => TableStyle::Dark6,
        56 => TableStyle::Dark7,
        57 => TableStyle::Dark8,
        58 => TableStyle::Dark9,
        59 => TableStyle::Dark10,
        _ => TableStyle::Dark11,
    }
}

/// All (type, method) pairs above.
pub const METHODS: usize = 604;
